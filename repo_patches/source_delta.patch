From 9453cd42a2307e8890c570a6a7d271c42c3ce8f0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:01:25 +0000
Subject: [PATCH 01/37] fix: NHN22 southern PTref uses the southern mean
 potential temperature

---
 src/falwa/oopinterface.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/falwa/oopinterface.py b/src/falwa/oopinterface.py
index 82aadbb..b925b6e 100644
--- a/src/falwa/oopinterface.py
+++ b/src/falwa/oopinterface.py
@@ -1875,7 +1875,7 @@ class QGFieldNHN22(QGFieldBase):
             sjk=sjk,
             tjk=tjk,
             ckref=ckref,
-            tb=self._domain_average_storage.tn0,
+            tb=t0,
             qref_over_cor=qref_over_sin,
             a=self.planet_radius,
             om=self.omega,
-- 
2.43.0


From c317da9d0562fd730557e70ae09f3a3c5c23041b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:01:25 +0000
Subject: [PATCH 02/37] fix: NHN22 southern boundary circulation uses the
 sign-reversed absolute vorticity

---
 src/falwa/oopinterface.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/falwa/oopinterface.py b/src/falwa/oopinterface.py
index b925b6e..93b4adf 100644
--- a/src/falwa/oopinterface.py
+++ b/src/falwa/oopinterface.py
@@ -1800,7 +1800,7 @@ class QGFieldNHN22(QGFieldBase):
                 self._compute_reference_states_nhn22_hemispheric_wrapper(
                     qgpv=-self._interpolated_field_storage.qgpv[:, ::-1, :],
                     u=self._interpolated_field_storage.interpolated_u[:, ::-1, :],
-                    avort=self._interpolated_field_storage.interpolated_avort[:, ::-1, :],
+                    avort=-self._interpolated_field_storage.interpolated_avort[:, ::-1, :],
                     theta=self._interpolated_field_storage.interpolated_theta[:, ::-1, :],
                     t0=self._domain_average_storage.ts0,
                     static_stability=self._domain_average_storage.static_stability_s)
-- 
2.43.0


From 95993794372ba922203eadff84611110665dedf3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:01:25 +0000
Subject: [PATCH 03/37] fix: compute_lwa_only stores the southern
 cyclonic/anticyclonic LWA

---
 src/falwa/oopinterface.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/falwa/oopinterface.py b/src/falwa/oopinterface.py
index 93b4adf..ede19b3 100644
--- a/src/falwa/oopinterface.py
+++ b/src/falwa/oopinterface.py
@@ -686,8 +686,8 @@ class QGFieldBase(ABC):
                     cp=self.cp,
                     prefac=self.prefactor)
             self._layerwise_flux_terms_storage.lwa_shem = np.abs(astar1 + astar2)
-            self._layerwise_flux_terms_storage.astar1_baro_shem = np.abs(astar1)
-            self._layerwise_flux_terms_storage.astar2_baro_shem = np.abs(astar2)
+            self._layerwise_flux_terms_storage.astar1_shem = np.abs(astar1)
+            self._layerwise_flux_terms_storage.astar2_shem = np.abs(astar2)
 
     @staticmethod
     def _prepare_coordinates_and_ref_states(
-- 
2.43.0


From 1e3a4ca27ffa14edf768678a4b0107400c00a87f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:01:25 +0000
Subject: [PATCH 04/37] fix: layerwise fluxes without ncforce work on even
 latitude grids

---
 src/falwa/oopinterface.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/falwa/oopinterface.py b/src/falwa/oopinterface.py
index ede19b3..fd5bf85 100644
--- a/src/falwa/oopinterface.py
+++ b/src/falwa/oopinterface.py
@@ -1075,7 +1075,7 @@ class QGFieldBase(ABC):
 
         # *** The chunk below has duplication. TODO: think of ways to refactor ***
         if ncforce is None:
-            ncforce = np.zeros((self.nlon, self.nlat, self.kmax))  # fortran indexing
+            ncforce = np.zeros((self.nlon, self._nlat_analysis, self.kmax))  # fortran indexing
         else:  # There is input
             ncforce = np.swapaxes(ncforce, 0, 2)
             assert ncforce.shape == self._interpolated_field_storage.interpolated_theta.shape
-- 
2.43.0


From 93462b7d5e59e7c416336d4d1778e99bf4b71e46 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:01:25 +0000
Subject: [PATCH 05/37] fix: vertical averages use the same levels as their
 normalization

---
 src/falwa/oopinterface.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/falwa/oopinterface.py b/src/falwa/oopinterface.py
index fd5bf85..0b9a818 100644
--- a/src/falwa/oopinterface.py
+++ b/src/falwa/oopinterface.py
@@ -407,7 +407,7 @@ class QGFieldBase(ABC):
 
         # Build dynamic slicer for var_3d
         slicer = [slice(None)] * var_3d.ndim
-        slicer[height_axis] = slice(lowest_layer_index, None)
+        slicer[height_axis] = slice(lowest_layer_index, self.kmax - 1)  # same levels as in the prefactor
 
         # Build dynamic shape for height broadcasting
         height_shape = [1] * var_3d.ndim
@@ -415,7 +415,7 @@ class QGFieldBase(ABC):
 
         var_baro = np.sum(
             var_3d[tuple(slicer)]
-            * np.exp(-self.height[lowest_layer_index:].reshape(height_shape) / self.scale_height) * dc,
+            * np.exp(-self.height[lowest_layer_index:self.kmax - 1].reshape(height_shape) / self.scale_height) * dc,
             axis=height_axis)
         return var_baro
 
@@ -459,7 +459,7 @@ class QGFieldBase(ABC):
         ncforce_baro = self._vertical_average(ncforce3d, lowest_layer_index=1)
 
         uref_baro = np.sum(
-            uref[-jd:, 1:] * np.exp(-self.height[np.newaxis, 1:] / self.scale_height) * self.dz / self.prefactor,axis=-1)
+            uref[-jd:, 1:-1] * np.exp(-self.height[np.newaxis, 1:-1] / self.scale_height) * self.dz / self.prefactor,axis=-1)
 
         return astar_baro, u_baro, uref_baro, ua1baro, ua2baro, ep1baro, ep2baro, ep3baro, ep4, \
             astar1, astar2, astar1_baro, astar2_baro, ncforce_baro
-- 
2.43.0


From 76b099d8b65cd96854ace26bbe858c3b0c7cf700 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:05:27 +0000
Subject: [PATCH 06/37] fix: layerwise fluxes require solved reference states,
 like the barotropic fluxes

---
 src/falwa/oopinterface.py | 29 +++++++++++++++++++----------
 1 file changed, 19 insertions(+), 10 deletions(-)

diff --git a/src/falwa/oopinterface.py b/src/falwa/oopinterface.py
index 0b9a818..f95a9cf 100644
--- a/src/falwa/oopinterface.py
+++ b/src/falwa/oopinterface.py
@@ -793,6 +793,21 @@ class QGFieldBase(ABC):
             self._layerwise_flux_terms_storage.lwa_shem = np.abs(astar1 + astar2)
 
 
+    def _check_reference_states_solved(self):
+        """
+        Private function. Raise an error if the flux computation is not permitted, i.e. Uref was not properly solved
+        or the reference states have not been computed.
+        """
+        if self._nonconvergent_uref:
+            raise ValueError(
+                """
+                Uref was not properly solved. This method cannot be called. 
+                Try compute_lwa_only instead if you deem appropriate.
+                """)
+
+        if not self._reference_states_computed:
+            raise ValueError("Reference states have not been computed yet.")
+
     def compute_lwa_and_barotropic_fluxes(
             self, return_named_tuple: bool = True, northern_hemisphere_results_only=None, ncforce=None):
 
@@ -884,17 +899,8 @@ class QGFieldBase(ABC):
         if self.qgpv is None:
             raise ValueError("QGField.interpolate_fields has to be called before QGField.compute_reference_states.")
 
-        if self._nonconvergent_uref:
-            raise ValueError(
-                """
-                Uref was not properly solved. This method cannot be called. 
-                Try compute_lwa_only instead if you deem appropriate.
-                """)
+        self._check_reference_states_solved()
 
-        if not self._reference_states_computed:
-            raise ValueError("Reference states have not been computed yet.")
-
-        # TODO: need a check for reference states computed. If not, throw an error.
         if ncforce is None:
             print("line 748: ncforce is None")
             ncforce = np.zeros((self.nlon, self._nlat_analysis, self.kmax))  # fortran indexing
@@ -1068,6 +1074,9 @@ class QGFieldBase(ABC):
         ----------
         ncforce : np.ndarray of dimension (kmax, nlat, nlon) which is output from self.compute_ncforce_from_heating_rate
         """
+        # Check if previous steps have been done.
+        self._check_reference_states_solved()
+
         # Turn qref back to correct unit
         ylat_input, qref_correct_unit = self._prepare_coordinates_and_ref_states(
             self._ylat, self._interpolated_field_storage, self._reference_states_storage,
-- 
2.43.0


From 6b9657a5e7ad60fc9927435074977a3de917c0c5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:05:27 +0000
Subject: [PATCH 07/37] fix: recomputing reference states forgets the previous
 convergence outcome

---
 src/falwa/oopinterface.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/falwa/oopinterface.py b/src/falwa/oopinterface.py
index f95a9cf..e0d123e 100644
--- a/src/falwa/oopinterface.py
+++ b/src/falwa/oopinterface.py
@@ -600,6 +600,10 @@ class QGFieldBase(ABC):
         if self.qgpv is None:
             raise ValueError("QGField.interpolate_fields has to be called before QGField.compute_reference_states.")
 
+        # Forget the outcome of any previous call
+        self._nonconvergent_uref = False
+        self._reference_states_computed = False
+
         self._compute_reference_states()
 
         if not self._nonconvergent_uref:  # Successfully compute reference states
-- 
2.43.0


From c9192b12f512f7fbb3f754484fbc79df5aae0105 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:05:27 +0000
Subject: [PATCH 08/37] fix: QGDataset labels the hemispheric static
 stabilities with the right hemisphere

---
 src/falwa/xarrayinterface.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/falwa/xarrayinterface.py b/src/falwa/xarrayinterface.py
index 55d6442..60377b7 100644
--- a/src/falwa/xarrayinterface.py
+++ b/src/falwa/xarrayinterface.py
@@ -488,8 +488,8 @@ class QGDataset:
         elif stability.ndim == 3 and stability.shape[-2] == 2:
             # Two vertical profiles of static stability per field: hemispheric
             return (
-                self.metadata.as_dataarray(stability[:,0,:], "static_stability_n"),
-                self.metadata.as_dataarray(stability[:,1,:], "static_stability_s")
+                self.metadata.as_dataarray(stability[:,1,:], "static_stability_n"),
+                self.metadata.as_dataarray(stability[:,0,:], "static_stability_s")
             )
         else:
             raise ValueError(f"cannot process shape of returned static stability field: {stability.shape}")
-- 
2.43.0


From 89ddf24cbdc0b704a2bd99e1034b3b1211dfd189 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:05:27 +0000
Subject: [PATCH 09/37] fix: pseudoheight grid of the NHN22 inversion always
 has kmax points

---
 src/falwa/oopinterface.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/falwa/oopinterface.py b/src/falwa/oopinterface.py
index e0d123e..cafc5a5 100644
--- a/src/falwa/oopinterface.py
+++ b/src/falwa/oopinterface.py
@@ -1855,7 +1855,7 @@ class QGFieldNHN22(QGFieldBase):
                 jmax=self._nlat_analysis,
                 jb=self.eq_boundary_index,  # 5
                 jd=self.jd,
-                z=np.arange(0, self.kmax * self.dz, self.dz),
+                z=np.arange(self.kmax) * self.dz,
                 statn=static_stability,
                 qref=qref_over_sin,
                 ckref=ckref,
-- 
2.43.0


From 9ec5788b4ff06a9ae5c66885cbedbaab6014ea4d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:05:48 +0000
Subject: [PATCH 10/37] fix: compute_lwa_only requires that the reference
 states were computed

---
 src/falwa/oopinterface.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/falwa/oopinterface.py b/src/falwa/oopinterface.py
index cafc5a5..c488e70 100644
--- a/src/falwa/oopinterface.py
+++ b/src/falwa/oopinterface.py
@@ -183,6 +183,7 @@ class QGFieldBase(ABC):
         self._initialize_storage()  # Create storage instances to store variables
 
         # === Stage completion indicator ===
+        self._reference_states_stored: bool = False  # Stored, even if Uref is not properly solved
         self._reference_states_computed: bool = False
         self._layerwise_fluxes_computed: bool = False
 
@@ -603,8 +604,10 @@ class QGFieldBase(ABC):
         # Forget the outcome of any previous call
         self._nonconvergent_uref = False
         self._reference_states_computed = False
+        self._reference_states_stored = False
 
         self._compute_reference_states()
+        self._reference_states_stored = True
 
         if not self._nonconvergent_uref:  # Successfully compute reference states
             self._reference_states_computed = True
@@ -643,6 +646,8 @@ class QGFieldBase(ABC):
         >>> u_baro = QGField.u_baro    # barotropic U
         >>> lwa = QGField.lwa       # 3-D LWA
         """
+        if not self._reference_states_stored:
+            raise ValueError("Reference states have not been computed yet.")
 
         ylat_input = self._ylat[-self.equator_idx:] if self.northern_hemisphere_results_only else self._ylat
         qref_correct_unit = self._reference_states_storage.qref_correct_unit(
-- 
2.43.0


From 27dba6d38eb6060047afbe0b41c2a2307d47a88c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:05:48 +0000
Subject: [PATCH 11/37] fix: reading a result before it is computed raises
 instead of returning zeros

---
 src/falwa/oopinterface.py | 41 ++++++++++++++++++++++++++++++++-------
 1 file changed, 34 insertions(+), 7 deletions(-)

diff --git a/src/falwa/oopinterface.py b/src/falwa/oopinterface.py
index c488e70..51a1f81 100644
--- a/src/falwa/oopinterface.py
+++ b/src/falwa/oopinterface.py
@@ -185,6 +185,9 @@ class QGFieldBase(ABC):
         # === Stage completion indicator ===
         self._reference_states_stored: bool = False  # Stored, even if Uref is not properly solved
         self._reference_states_computed: bool = False
+        self._lwa_computed: bool = False
+        self._lwa_baro_computed: bool = False
+        self._barotropic_fluxes_computed: bool = False
         self._layerwise_fluxes_computed: bool = False
 
     def _initialize_storage(self):
@@ -698,6 +701,9 @@ class QGFieldBase(ABC):
             self._layerwise_flux_terms_storage.astar1_shem = np.abs(astar1)
             self._layerwise_flux_terms_storage.astar2_shem = np.abs(astar2)
 
+        self._lwa_computed = True
+        self._lwa_baro_computed = True
+
     @staticmethod
     def _prepare_coordinates_and_ref_states(
         _ylat, _interpolated_field_storage, _reference_states_storage, omega, equator_idx, northern_hemisphere_results_only):
@@ -958,6 +964,10 @@ class QGFieldBase(ABC):
         # Barotropic wave activity flux vectors (Zonal, Lee & Nakamura 2024, eqs. 7)
         self._output_barotropic_flux_terms_storage.flux_vector_phi_baro = self._compute_flux_vector_phi_baro()
 
+        self._lwa_computed = True
+        self._lwa_baro_computed = True
+        self._barotropic_fluxes_computed = True
+
         # === Return the named tuple ===
         if return_named_tuple:
             LWA_and_fluxes = namedtuple(
@@ -1171,6 +1181,7 @@ class QGFieldBase(ABC):
 
         # *** Compute the layerwise version of ep4 ***
         self._compute_stretch_term(stat_n=stat_n, stat_s=stat_s)
+        self._lwa_computed = True
         self._layerwise_fluxes_computed = True
 
     @staticmethod
@@ -1288,7 +1299,7 @@ class QGFieldBase(ABC):
         """
         Reference state of QGPV (Qref).
         """
-        if self._reference_states_storage.qref is None:
+        if not self._reference_states_stored:
             raise ValueError('qref is not computed yet.')
         return self._return_interp_variables(
             variable=self._reference_states_storage.qref_correct_unit(
@@ -1299,7 +1310,7 @@ class QGFieldBase(ABC):
         """
         Reference state of zonal wind (Uref).
         """
-        if self._reference_states_storage.uref is None:
+        if not self._reference_states_stored:
             raise ValueError('uref is not computed yet.')
         return self._return_interp_variables(
             variable=self._reference_states_storage.fortran_to_python(self._reference_states_storage.uref),
@@ -1310,7 +1321,7 @@ class QGFieldBase(ABC):
         """
         Reference state of potential temperature (\\Theta_ref).
         """
-        if self._reference_states_storage.ptref is None:
+        if not self._reference_states_stored:
             raise ValueError('ptref is not computed yet.')
         return self._return_interp_variables(
             variable=self._reference_states_storage.fortran_to_python(self._reference_states_storage.ptref),
@@ -1321,6 +1332,8 @@ class QGFieldBase(ABC):
         """
         Two-dimensional array of the second-order eddy term in zonal advective flux, i.e. F1 in equation 3 of NH18
         """
+        if not self._barotropic_fluxes_computed:
+            raise ValueError('adv_flux_f1 is not computed yet.')
         return self._return_interp_variables(
             variable=self._output_barotropic_flux_terms_storage.adv_flux_f1,
             interp_axis=0)
@@ -1330,6 +1343,8 @@ class QGFieldBase(ABC):
         """
         Two-dimensional array of the third-order eddy term in zonal advective flux, i.e. F2 in equation 3 of NH18
         """
+        if not self._barotropic_fluxes_computed:
+            raise ValueError('adv_flux_f2 is not computed yet.')
         return self._return_interp_variables(
             variable=self._output_barotropic_flux_terms_storage.adv_flux_f2,
             interp_axis=0)
@@ -1339,6 +1354,8 @@ class QGFieldBase(ABC):
         """
         Two-dimensional array of the remaining term in zonal advective flux, i.e. F3 in equation 3 of NH18
         """
+        if not self._barotropic_fluxes_computed:
+            raise ValueError('adv_flux_f3 is not computed yet.')
         return self._return_interp_variables(
             variable=self._output_barotropic_flux_terms_storage.adv_flux_f3,
             interp_axis=0)
@@ -1348,6 +1365,8 @@ class QGFieldBase(ABC):
         """
         Two-dimensional array of the convergence of zonal advective flux, i.e. -div(F1+F2+F3) in equation 3 of NH18
         """
+        if not self._barotropic_fluxes_computed:
+            raise ValueError('convergence_zonal_advective_flux is not computed yet.')
         return self._return_interp_variables(
             variable=self._output_barotropic_flux_terms_storage.convergence_zonal_advective_flux,
             interp_axis=0)
@@ -1357,6 +1376,8 @@ class QGFieldBase(ABC):
         """
         Two-dimensional array of the divergence of eddy momentum flux, i.e. (II) in equation 2 of NH18
         """
+        if not self._barotropic_fluxes_computed:
+            raise ValueError('divergence_eddy_momentum_flux is not computed yet.')
         return self._return_interp_variables(
             variable=self._output_barotropic_flux_terms_storage.divergence_eddy_momentum_flux,
             interp_axis=0)
@@ -1366,6 +1387,8 @@ class QGFieldBase(ABC):
         """
         Two-dimensional array of the low-level meridional heat flux, i.e. (III) in equation 2 of NH18
         """
+        if not self._barotropic_fluxes_computed:
+            raise ValueError('meridional_heat_flux is not computed yet.')
         return self._return_interp_variables(
             variable=self._output_barotropic_flux_terms_storage.meridional_heat_flux,
             interp_axis=0)
@@ -1381,6 +1404,8 @@ class QGFieldBase(ABC):
         :math:`\\langle \\text{adv\_f2} \\rangle \\equiv - a \\langle \\int_0^{\\Delta\\phi} u_e q_e \\cos(\\phi + \\phi') \\mathrm{d}\\phi^\\prime \\rangle`,
         :math:`\\langle \\text{adv\_f3} \\rangle \\equiv \\frac{\\cos(\\phi)}{2} \\left\\langle v_e^2 - u_e^2 - \\frac{R}{H} \\frac{e^{-\\kappa z / H} \\theta_e^2}{\\partial \\tilde\\theta / \\partial z} \\right\\rangle`
         """
+        if not self._barotropic_fluxes_computed:
+            raise ValueError('flux_vector_lambda_baro is not computed yet.')
         return self._return_interp_variables(
             variable=self._output_barotropic_flux_terms_storage.flux_vector_lambda_baro,
             interp_axis=0)
@@ -1395,6 +1420,8 @@ class QGFieldBase(ABC):
 
         Computed as -0.5 * (ep2baro + ep3baro) / cos(phi).
         """
+        if not self._barotropic_fluxes_computed:
+            raise ValueError('flux_vector_phi_baro is not computed yet.')
         return self._return_interp_variables(
             variable=self._output_barotropic_flux_terms_storage.flux_vector_phi_baro,
             interp_axis=0)
@@ -1404,7 +1431,7 @@ class QGFieldBase(ABC):
         """
         Two-dimensional array of barotropic local wave activity (with cosine weighting).
         """
-        if self._barotropic_flux_terms_storage.lwa_baro is None:
+        if not self._lwa_baro_computed:
             raise ValueError('lwa_baro is not computed yet.')
         return self._return_interp_variables(
             variable=self._barotropic_flux_terms_storage.fortran_to_python(
@@ -1418,7 +1445,7 @@ class QGFieldBase(ABC):
         corresponding barotropic component of non-conservative force contribution with respect to the wave
         activity budget equation in Lubis et al (2025, Nature Comm) Eq.(11).
         """
-        if self._barotropic_flux_terms_storage.ncforce_baro is None:
+        if not self._barotropic_fluxes_computed:
             raise ValueError('ncforce_baro is not computed yet.')
         return self._return_interp_variables(
             variable=self._barotropic_flux_terms_storage.fortran_to_python(
@@ -1430,7 +1457,7 @@ class QGFieldBase(ABC):
         """
         Two-dimensional array of barotropic zonal wind (without cosine weighting).
         """
-        if self._barotropic_flux_terms_storage.u_baro is None:
+        if not self._lwa_baro_computed:
             raise ValueError('u_baro is not computed yet.')
         return self._return_interp_variables(
             variable=self._barotropic_flux_terms_storage.fortran_to_python(
@@ -1442,7 +1469,7 @@ class QGFieldBase(ABC):
         """
         Three-dimensional array of local wave activity
         """
-        if self._layerwise_flux_terms_storage.lwa is None:
+        if not self._lwa_computed:
             raise ValueError('lwa is not computed yet.')
         return self._return_interp_variables(
             variable=self._layerwise_flux_terms_storage.fortran_to_python(self._layerwise_flux_terms_storage.lwa),
-- 
2.43.0


From c12a62cc443dd51bc1825aa60ddd03b79f081fca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:06:11 +0000
Subject: [PATCH 12/37] fix: interpolated fields are available with NH-only
 results on even latitude grids

---
 src/falwa/oopinterface.py | 15 +++++++--------
 1 file changed, 7 insertions(+), 8 deletions(-)

diff --git a/src/falwa/oopinterface.py b/src/falwa/oopinterface.py
index 51a1f81..e457ee6 100644
--- a/src/falwa/oopinterface.py
+++ b/src/falwa/oopinterface.py
@@ -377,7 +377,7 @@ class QGFieldBase(ABC):
                 fill_value='extrapolate'
             )(interp_to)
 
-    def _return_interp_variables(self, variable, interp_axis):
+    def _return_interp_variables(self, variable, interp_axis, full_globe=False):
         """
         Private function to return interpolated variables from odd grid back to even grid if originally
         the data was given on an odd grid.
@@ -388,15 +388,14 @@ class QGFieldBase(ABC):
 
             interp_axis(int): the index of axis for interpolation
 
-            northern_hemisphere_results_only(bool): whether only to return northern hemispheric results.
-                Will be deprecated in upcoming release.
+            full_globe(bool): whether the variable covers the whole globe even if northern_hemisphere_results_only = True.
 
         Returns
         -------
             The interpolated variable(numpy.ndarray)
         """
         if self.need_latitude_interpolation:
-            if self.northern_hemisphere_results_only:
+            if self.northern_hemisphere_results_only and not full_globe:
                 return self._interp_back(
                     variable, self._ylat[-(self._nlat_analysis // 2 + 1):],
                     self._input_ylat[-(self.nlat // 2):],
@@ -1255,7 +1254,7 @@ class QGFieldBase(ABC):
         if self._interpolated_field_storage.qgpv is None:
             raise ValueError('QGPV field is not present in the QGField object.')
         return self._return_interp_variables(variable=self._interpolated_field_storage.fortran_to_python(
-            self._interpolated_field_storage.qgpv), interp_axis=1)
+            self._interpolated_field_storage.qgpv), interp_axis=1, full_globe=True)
 
     @property
     def interpolated_u(self):
@@ -1265,7 +1264,7 @@ class QGFieldBase(ABC):
         if self._interpolated_field_storage.interpolated_u is None:
             raise ValueError('interpolated_u is not present in the QGField object.')
         return self._return_interp_variables(variable=self._interpolated_field_storage.fortran_to_python(
-            self._interpolated_field_storage.interpolated_u), interp_axis=1)
+            self._interpolated_field_storage.interpolated_u), interp_axis=1, full_globe=True)
 
     @property
     def interpolated_v(self):
@@ -1275,7 +1274,7 @@ class QGFieldBase(ABC):
         if self._interpolated_field_storage.interpolated_v is None:
             raise ValueError('interpolated_v is not present in the QGField object.')
         return self._return_interp_variables(variable=self._interpolated_field_storage.fortran_to_python(
-            self._interpolated_field_storage.interpolated_v), interp_axis=1)
+            self._interpolated_field_storage.interpolated_v), interp_axis=1, full_globe=True)
 
     @property
     def interpolated_theta(self):
@@ -1285,7 +1284,7 @@ class QGFieldBase(ABC):
         if self._interpolated_field_storage.interpolated_theta is None:
             raise ValueError('interpolated_theta is not present in the QGField object.')
         return self._return_interp_variables(variable=self._interpolated_field_storage.fortran_to_python(
-            self._interpolated_field_storage.interpolated_theta), interp_axis=1)
+            self._interpolated_field_storage.interpolated_theta), interp_axis=1, full_globe=True)
 
     @property
     @abstractmethod
-- 
2.43.0


From 14867f9fb1ed6c5a9c0c611c27a3bd1d70864822 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:06:11 +0000
Subject: [PATCH 13/37] fix: heating rates and non-conservative forcing work on
 even latitude grids

---
 src/falwa/oopinterface.py | 18 +++++++++++++++---
 1 file changed, 15 insertions(+), 3 deletions(-)

diff --git a/src/falwa/oopinterface.py b/src/falwa/oopinterface.py
index e457ee6..50366a5 100644
--- a/src/falwa/oopinterface.py
+++ b/src/falwa/oopinterface.py
@@ -405,6 +405,15 @@ class QGFieldBase(ABC):
         else:
             return variable
 
+    def _interp_to_analysis_grid(self, variable):
+        """
+        Private function to interpolate an input field of dimension (height, nlat, nlon) onto the latitude grid used
+        in analysis, if that is different from the grid input by user.
+        """
+        if self.need_latitude_interpolation and variable.shape[1] == self.nlat:
+            return interp1d(self._input_ylat, variable, axis=1, fill_value="extrapolate")(self._ylat)
+        return variable
+
     def _vertical_average(self, var_3d, lowest_layer_index=1, height_axis=-1):
         dc = self.dz / self.prefactor
 
@@ -920,6 +929,7 @@ class QGFieldBase(ABC):
             ncforce = np.zeros((self.nlon, self._nlat_analysis, self.kmax))  # fortran indexing
         else:  # There is input
             print("line 751: ncforce has values")
+            ncforce = self._interp_to_analysis_grid(ncforce)
             ncforce = np.swapaxes(ncforce, 0, 2)  # Convert from python to fortran indexing
             assert ncforce.shape == self._interpolated_field_storage.interpolated_theta.shape
 
@@ -1027,7 +1037,8 @@ class QGFieldBase(ABC):
         """
 
         # Interpolate potential temperature tendency onto regular z-grid first. Result has dimension (kmax, nlat, nlon)
-        interpolated_heating_rate = self._vertical_interpolation(heating_rate, kind="linear", axis=0)
+        interpolated_heating_rate = self._vertical_interpolation(
+            self._interp_to_analysis_grid(heating_rate), kind="linear", axis=0)
 
         # Calculate q_dot on regular z-grid (kmax, nlat, nlon)
         ncforce_input = z_derivative_of_prod(
@@ -1038,9 +1049,9 @@ class QGFieldBase(ABC):
             dz=self.dz,
             density_decay=np.exp(-self.height / self.scale_height),
             gfunc=interpolated_heating_rate,
-            multiplier=2 * self.omega * np.sin(np.deg2rad(self.ylat[np.newaxis, :])) * np.exp(
+            multiplier=2 * self.omega * np.sin(np.deg2rad(self._ylat[np.newaxis, :])) * np.exp(
                 self.height[:, np.newaxis] / self.scale_height))
-        return ncforce_input
+        return self._return_interp_variables(variable=ncforce_input, interp_axis=1, full_globe=True)
 
     def _compute_stretch_term(self, stat_n, stat_s):
         """
@@ -1104,6 +1115,7 @@ class QGFieldBase(ABC):
         if ncforce is None:
             ncforce = np.zeros((self.nlon, self._nlat_analysis, self.kmax))  # fortran indexing
         else:  # There is input
+            ncforce = self._interp_to_analysis_grid(ncforce)
             ncforce = np.swapaxes(ncforce, 0, 2)
             assert ncforce.shape == self._interpolated_field_storage.interpolated_theta.shape
         # *** The chunk above has duplication. ***
-- 
2.43.0


From 21bc33e4a26dbf164fc39951fd244ce2d5b1f003 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:06:45 +0000
Subject: [PATCH 14/37] fix: QGDataset reorders heating rates like the other
 input fields

---
 src/falwa/xarrayinterface.py | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/falwa/xarrayinterface.py b/src/falwa/xarrayinterface.py
index 60377b7..087ea99 100644
--- a/src/falwa/xarrayinterface.py
+++ b/src/falwa/xarrayinterface.py
@@ -394,6 +394,7 @@ class QGDataset:
         if not _is_descending(plev):
             plev = np.flip(plev)
             flip.append(-3)
+        self._flip = flip
         # Ordering of xlon doesn't matter here
         xlon = da_xlon.values
         # Create a QGField object for each combination of timestep, ensemble
@@ -656,7 +657,11 @@ class QGDataset:
         ncforce_input_list = []
 
         for field, coord in zip(self._fields, self.metadata.iter_other()):
-            output = field.compute_ncforce_from_heating_rate(heating_rate=heating_rate.sel(coord))
+            heating_rate_field = heating_rate.sel(coord).values
+            # Apply the same reordering as to the u, v and t fields
+            if self._flip:
+                heating_rate_field = np.flip(heating_rate_field, axis=self._flip)
+            output = field.compute_ncforce_from_heating_rate(heating_rate=heating_rate_field)
             ncforce_input_list.append(output)
         return self.metadata.as_dataarray(ncforce_input_list, var="ncforce")
 
-- 
2.43.0


From d6b43b6908d01280af12da50314b212707047dae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:06:45 +0000
Subject: [PATCH 15/37] fix: ncforce from heating rates covers the whole globe

---
 src/falwa/xarrayinterface.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/falwa/xarrayinterface.py b/src/falwa/xarrayinterface.py
index 087ea99..b6f3653 100644
--- a/src/falwa/xarrayinterface.py
+++ b/src/falwa/xarrayinterface.py
@@ -229,7 +229,7 @@ _MetadataServiceProvider.register_var("flux_vector_lambda_baro", ("ylat", "xlon"
 _MetadataServiceProvider.register_var("flux_vector_phi_baro", ("ylat", "xlon"), dim_names=("ylat_ref_states", "xlon"))
 # 3-dimensional LWA (full x-y-z fields)
 _MetadataServiceProvider.register_var("lwa", ("height", "ylat", "xlon"), dim_names=("height", "ylat_ref_states", "xlon"))
-_MetadataServiceProvider.register_var("ncforce", ("height", "ylat", "xlon"), dim_names=("height", "ylat_ref_states", "xlon"))
+_MetadataServiceProvider.register_var("ncforce", ("height", "ylat", "xlon"))
 _MetadataServiceProvider.register_var("ua1", ("height", "ylat", "xlon"), dim_names=("height", "ylat_ref_states", "xlon"))
 _MetadataServiceProvider.register_var("ua2", ("height", "ylat", "xlon"), dim_names=("height", "ylat_ref_states", "xlon"))
 _MetadataServiceProvider.register_var("ep1", ("height", "ylat", "xlon"), dim_names=("height", "ylat_ref_states", "xlon"))
-- 
2.43.0


From c8bff78156357dc5497d664e3d2307fc003e08c2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:06:45 +0000
Subject: [PATCH 16/37] fix: NHN22 flux helper passes the forcing and returns
 the documented eleven terms

---
 src/falwa/oopinterface.py | 11 ++++-------
 1 file changed, 4 insertions(+), 7 deletions(-)

diff --git a/src/falwa/oopinterface.py b/src/falwa/oopinterface.py
index 50366a5..9e2aca8 100644
--- a/src/falwa/oopinterface.py
+++ b/src/falwa/oopinterface.py
@@ -1965,19 +1965,16 @@ class QGFieldNHN22(QGFieldBase):
 
         .. versionadded:: 0.6.0
         """
-        ans = compute_flux_dirinv_nshem(
+        ans = self._compute_lwa_and_barotropic_fluxes_wrapper(
             pv=self._interpolated_field_storage.qgpv,
             uu=self._interpolated_field_storage.interpolated_u,
             vv=self._interpolated_field_storage.interpolated_v,
             pt=self._interpolated_field_storage.interpolated_theta,
+            ncforce=np.zeros((self.nlon, self._nlat_analysis, self.kmax)),
             tn0=self._domain_average_storage.tn0,
             qref=qref,
             uref=uref,
             tref=tref,
-            jb=self.eq_boundary_index,
-            is_nhem=True,
-            a=self.planet_radius,
-            om=self.omega,
-            dz=self.dz, h=self.scale_height, rr=self.dry_gas_constant, cp=self.cp, prefac=self.prefactor)
+            jb=self.eq_boundary_index)
         # astarbaro, u_baro, urefbaro, ua1baro, ua2baro, ep1baro, ep2baro, ep3baro, ep4baro, astar1, astar2 = ans
-        return ans
+        return ans[:11]
-- 
2.43.0


From ea77369d5bf139f8bdd4eaa068fcc11c547efbbf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:06:45 +0000
Subject: [PATCH 17/37] fix: convergence and divergence are zero where the
 latitude circle vanishes, as documented

---
 src/falwa/utilities.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/falwa/utilities.py b/src/falwa/utilities.py
index 6724dd4..23f8573 100644
--- a/src/falwa/utilities.py
+++ b/src/falwa/utilities.py
@@ -229,6 +229,7 @@ def zonal_convergence(field, clat, dlambda, planet_radius=6.378e+6, tol=1.e-5):
 
     zonal_diff[finite_clat, :] = zonal_diff[finite_clat, :] * \
                                  (-1./(planet_radius * clat[finite_clat, np.newaxis] * 2. * dlambda))
+    zonal_diff[~finite_clat, :] = 0.
 
     return zonal_diff
 
@@ -276,6 +277,7 @@ def meridional_divergence(field, clat, dphi, planet_radius=6.378e+6, tol=1.e-5):
 
     meridional_diff[finite_clat, :] = \
         meridional_diff[finite_clat, :] / (planet_radius * clat[finite_clat, np.newaxis] * 2. * dphi)
+    meridional_diff[~finite_clat, :] = 0.
 
     return meridional_diff
 
-- 
2.43.0


From 68f95cfaad0d38dca92929f5be1b2be9cea9640d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:06:45 +0000
Subject: [PATCH 18/37] fix: one-sided differences of meridional_divergence
 span a single grid cell

---
 src/falwa/utilities.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/falwa/utilities.py b/src/falwa/utilities.py
index 23f8573..2577470 100644
--- a/src/falwa/utilities.py
+++ b/src/falwa/utilities.py
@@ -269,8 +269,9 @@ def meridional_divergence(field, clat, dphi, planet_radius=6.378e+6, tol=1.e-5):
 
     meridional_diff = np.zeros_like(field)
     meridional_diff[1:-1, :] = field[2:, :] * clat[2:, np.newaxis] - field[:-2, :] * clat[:-2, np.newaxis]
-    meridional_diff[0, :] = field[1, :] * clat[1] - field[0, :] * clat[0]
-    meridional_diff[-1, :] = field[-1, :] * clat[-1] - field[-2, :] * clat[-2]
+    # One-sided differences span only a single grid cell
+    meridional_diff[0, :] = 2. * (field[1, :] * clat[1] - field[0, :] * clat[0])
+    meridional_diff[-1, :] = 2. * (field[-1, :] * clat[-1] - field[-2, :] * clat[-2])
 
     # This is to avoid divided by zero
     finite_clat = np.abs(clat) > tol
-- 
2.43.0


From 02745a5ab975e75e3232d3b5d17b093242e6fc37 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:07:11 +0000
Subject: [PATCH 19/37] fix: barotropic LWA with prescribed Qref returns the
 documented array

---
 src/falwa/wrapper.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/falwa/wrapper.py b/src/falwa/wrapper.py
index b0d669a..a37cfb7 100644
--- a/src/falwa/wrapper.py
+++ b/src/falwa/wrapper.py
@@ -82,7 +82,7 @@ def barotropic_input_qref_to_compute_lwa(ylat, qref, vort, area, dmu, planet_rad
     """
     nlat = vort.shape[0]
     nlon = vort.shape[1]
-    lwa_result = basis.lwa(nlon, nlat, vort, qref, dmu)
+    lwa_result, _ = basis.lwa(nlon, nlat, vort, qref, dmu)
     return lwa_result
 
 
-- 
2.43.0


From 9fbc01bcb03127d3b276e3038442e52bbbb58f33 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:07:11 +0000
Subject: [PATCH 20/37] fix: hemispheric equivalent latitude restores the sign
 of northern vorticity

---
 src/falwa/wrapper.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/falwa/wrapper.py b/src/falwa/wrapper.py
index a37cfb7..5f1e454 100644
--- a/src/falwa/wrapper.py
+++ b/src/falwa/wrapper.py
@@ -130,7 +130,7 @@ def eqvlat_hemispheric(ylat, vort, area, nlat_s=None, n_points=None, planet_radi
     vort2 = -vort[::-1, :]
     qref2, _ = basis.eqvlat_fawa(ylat[:nlat_s], vort2[:nlat_s, :], area[:nlat_s, :],
                             n_points, planet_radius=planet_radius)
-    qref[-nlat_s:] = qref2[::-1]
+    qref[-nlat_s:] = -qref2[::-1]
 
     return qref
 
-- 
2.43.0


From fb00053f37405ecd2354a71f41dd2758f4a6a56d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:07:11 +0000
Subject: [PATCH 21/37] fix: hemispheric bracket averages use the routine that
 computes them

---
 src/falwa/wrapper.py | 28 ++++++++++++++++------------
 1 file changed, 16 insertions(+), 12 deletions(-)

diff --git a/src/falwa/wrapper.py b/src/falwa/wrapper.py
index 5f1e454..de44ae3 100644
--- a/src/falwa/wrapper.py
+++ b/src/falwa/wrapper.py
@@ -177,23 +177,27 @@ def eqvlat_bracket_hemispheric(ylat, vort, area, nlat_s=None, n_points=None, pla
         n_points = nlat_s
 
     # --- Southern Hemisphere ---
-    qref1, brac1 = basis.eqvlat_fawa(ylat[:nlat_s], vort[:nlat_s, :],
-                                area[:nlat_s, :],
-                                n_points, planet_radius=planet_radius,
-                                vgrad=vgrad)
+    qref1, brac1 = basis.eqvlat_vgrad(ylat[:nlat_s], vort[:nlat_s, :],
+                                 area[:nlat_s, :],
+                                 n_points, planet_radius=planet_radius,
+                                 vgrad=None if vgrad is None else vgrad[:nlat_s, :])
     qref[:nlat_s] = qref1
 
     # --- Northern Hemisphere ---
     vort2 = -vort[::-1, :]
-    qref2, brac2 = basis.eqvlat_fawa(ylat[:nlat_s], vort2[:nlat_s, :],
-                                area[:nlat_s, :],
-                                n_points, planet_radius=planet_radius,
-                                vgrad=vgrad)
+    vgrad2 = None if vgrad is None else -vgrad[::-1, :]
+    qref2, brac2 = basis.eqvlat_vgrad(ylat[:nlat_s], vort2[:nlat_s, :],
+                                 area[:nlat_s, :],
+                                 n_points, planet_radius=planet_radius,
+                                 vgrad=None if vgrad is None else vgrad2[:nlat_s, :])
 
-    qref[-nlat_s:] = qref2[::-1]
+    qref[-nlat_s:] = -qref2[::-1]
+
+    if vgrad is None:
+        return qref, None
 
     brac[:nlat_s] = brac1
-    brac[-nlat_s:] = brac2[::-1]
+    brac[-nlat_s:] = -brac2[::-1]
 
     return qref, brac
 
@@ -406,7 +410,7 @@ def qgpv_eqlat_lwa_options(ylat, vort, area, dmu, nlat_s=None, n_points=None, vg
                                    area[:nlat_s, :],
                                    n_points, planet_radius=planet_radius)
     else:
-        qref1, brac = basis.eqvlat_fawa(ylat[:nlat_s], vort[:nlat_s, :],
+        qref1, brac = basis.eqvlat_vgrad(ylat[:nlat_s], vort[:nlat_s, :],
                                    area[:nlat_s, :],
                                    n_points, planet_radius=planet_radius,
                                    vgrad=vgrad[:nlat_s, :])
@@ -435,7 +439,7 @@ def qgpv_eqlat_lwa_options(ylat, vort, area, dmu, nlat_s=None, n_points=None, vg
                                    n_points, planet_radius=planet_radius)
     else:
         vgrad2 = -vgrad[::-1, :]  # Is this correct?
-        qref2, brac = basis.eqvlat_fawa(ylat[:nlat_s], vort2[:nlat_s, :],
+        qref2, brac = basis.eqvlat_vgrad(ylat[:nlat_s], vort2[:nlat_s, :],
                                    area[:nlat_s, :],
                                    n_points, planet_radius=planet_radius,
                                    vgrad=vgrad2[:nlat_s, :])
-- 
2.43.0


From 5dce1bb85e0ed83ba6a5804853b51b8ff37f9923 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:08:21 +0000
Subject: [PATCH 22/37] fix: momentum flux boundary row is not written in front
 of the array

---
 src/falwa/f90_modules/compute_flux_dirinv.f90 | 14 ++++++++------
 1 file changed, 8 insertions(+), 6 deletions(-)

diff --git a/src/falwa/f90_modules/compute_flux_dirinv.f90 b/src/falwa/f90_modules/compute_flux_dirinv.f90
index 519c4db..a7218d6 100644
--- a/src/falwa/f90_modules/compute_flux_dirinv.f90
+++ b/src/falwa/f90_modules/compute_flux_dirinv.f90
@@ -170,12 +170,14 @@ SUBROUTINE compute_flux_dirinv_nshem( &
           ep4(i,j) = ep41*(ep42+ep43)   ! low-level heat flux
         endif
       enddo
-      phip = dp*jb
-      phi0 = dp*(jb-1)
-      cosp = cos(phip)          ! cosine for one grid north
-      cos0 = cos(phi0)          ! cosine for latitude grid
-      ep2(i,jb,k) = (uu(i,nd+jb+1,k)-uref(2,k))*cosp*cosp*vv(i,nd+jb+1,k)
-      ep3(i,jb,k) = (uu(i,nd+jb,k)-uref(1,k))*cos0*cos0*vv(i,nd+jb,k)
+      if (jb.ge.1) then  ! There is no such row if the domain starts at the equator
+        phip = dp*jb
+        phi0 = dp*(jb-1)
+        cosp = cos(phip)          ! cosine for one grid north
+        cos0 = cos(phi0)          ! cosine for latitude grid
+        ep2(i,jb,k) = (uu(i,nd+jb+1,k)-uref(2,k))*cosp*cosp*vv(i,nd+jb+1,k)
+        ep3(i,jb,k) = (uu(i,nd+jb,k)-uref(1,k))*cos0*cos0*vv(i,nd+jb,k)
+      endif
     enddo
   enddo
 
-- 
2.43.0


From e986b267b0fb0a7c5ac1fc6227c1849d83cec64b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:08:21 +0000
Subject: [PATCH 23/37] fix: momentum flux at the southern boundary does not
 read in front of Uref

---
 src/falwa/f90_modules/compute_flux_dirinv.f90 | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/falwa/f90_modules/compute_flux_dirinv.f90 b/src/falwa/f90_modules/compute_flux_dirinv.f90
index a7218d6..ac278c3 100644
--- a/src/falwa/f90_modules/compute_flux_dirinv.f90
+++ b/src/falwa/f90_modules/compute_flux_dirinv.f90
@@ -149,7 +149,8 @@ SUBROUTINE compute_flux_dirinv_nshem( &
         ! meridional eddy momentum flux one grid north and south
         if (is_nhem) then
           ep2(i,j,k) = (uu(i,j+nd,k)-uref(j-jb+1,k))*cosp*cosp * vv(i,j+nd,k)
-          ep3(i,j,k) = (uu(i,j+nd-2,k)-uref(j-jb-1,k))*cosm*cosm * vv(i,j+nd-2,k)
+          jm = max(j-jb-1, 1)  ! the southernmost row of uref has no southern neighbour
+          ep3(i,j,k) = (uu(i,j+nd-2,k)-uref(jm,k))*cosm*cosm * vv(i,j+nd-2,k)
         else
           ! TODO: double check.
           ep2(i,j,k) = (uu(i,j+1,k)-uref(j+1,k))*cosp*cosp * vv(i,j+1,k)
-- 
2.43.0


From 9463dbaa8c47cbcb963763d5e6e75c05181b8d20 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:08:21 +0000
Subject: [PATCH 24/37] fix: circulation arrays are initialized before rows
 that are not computed are read

---
 src/falwa/f90_modules/compute_qref_and_fawa_first.f90 | 3 +++
 src/falwa/f90_modules/compute_reference_states.f90    | 3 +++
 2 files changed, 6 insertions(+)

diff --git a/src/falwa/f90_modules/compute_qref_and_fawa_first.f90 b/src/falwa/f90_modules/compute_qref_and_fawa_first.f90
index 41de5f2..3f6cadb 100644
--- a/src/falwa/f90_modules/compute_qref_and_fawa_first.f90
+++ b/src/falwa/f90_modules/compute_qref_and_fawa_first.f90
@@ -55,6 +55,9 @@ SUBROUTINE compute_qref_and_fawa_first(pv, uu, vort, pt, tn0, imax, JMAX, kmax,
   ! **** hemispheric-mean potential temperature ****
   tb(:) = tn0(:)
 
+  cref(:,:) = 0.
+  cbar(:,:) = 0.
+
   do k = 2,kmax-1
     pv2(:,:) = pv(:,:,k)
     vort2(:,:) = vort(:,:,k)
diff --git a/src/falwa/f90_modules/compute_reference_states.f90 b/src/falwa/f90_modules/compute_reference_states.f90
index e48f6d3..1402b76 100644
--- a/src/falwa/f90_modules/compute_reference_states.f90
+++ b/src/falwa/f90_modules/compute_reference_states.f90
@@ -65,6 +65,9 @@ SUBROUTINE compute_reference_states(pv,uu,pt,stat,nlon,nlat,kmax,jd,npart,maxits
     enddo
     tb(:) = tb(:)/wt
 
+    cref(:,:) = 0.
+    cbar(:,:) = 0.
+
     do k = 2,KMAX-1
         pv2(:,:) = pv(:,:,k)    
         u2(:,:) = uu(:,:,k)    
-- 
2.43.0


From ea804b8b5dd6478f90f217505692ae43fe4adcba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:08:21 +0000
Subject: [PATCH 25/37] fix: ascending plev is rejected on evenly spaced
 pseudoheight grids as well

---
 src/falwa/oopinterface.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/falwa/oopinterface.py b/src/falwa/oopinterface.py
index 9e2aca8..47d35ac 100644
--- a/src/falwa/oopinterface.py
+++ b/src/falwa/oopinterface.py
@@ -108,6 +108,8 @@ class QGFieldBase(ABC):
         # === Variables related to the Vertical grid ===
         self._data_on_evenly_spaced_pseudoheight_grid = data_on_evenly_spaced_pseudoheight_grid
         if self._data_on_evenly_spaced_pseudoheight_grid:
+            if np.diff(plev)[0] > 0:
+                raise TypeError("plev must be in decending order (i.e. from ground level to aloft)")
             self.plev = plev
             self.kmax = plev.size
             self._plev_to_height = -scale_height * np.log(plev / P_GROUND)
-- 
2.43.0


From 2ad292b38b7371b7726f12f98ab9486642d14e44 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:08:21 +0000
Subject: [PATCH 26/37] fix: latitude grids with an even number of points that
 include the equator are rejected

---
 src/falwa/oopinterface.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/falwa/oopinterface.py b/src/falwa/oopinterface.py
index 47d35ac..71c5b0b 100644
--- a/src/falwa/oopinterface.py
+++ b/src/falwa/oopinterface.py
@@ -336,6 +336,8 @@ class QGFieldBase(ABC):
             equator_idx = \
                 np.argwhere(_ylat == 0)[0][0] + 1
             # Fortran indexing starts from 1
+        elif ylat.size % 2 == 0:
+            raise TypeError("A latitude grid that includes the equator must have the same size in both hemispheres.")
         elif sum(ylat == 0) == 1:
             # Odd grid
             need_latitude_interpolation = False
-- 
2.43.0


From 0e0db65eea1c9779e6ac470b5411841fb0d279d6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:08:21 +0000
Subject: [PATCH 27/37] fix: temperature fields of a wrong dimension are
 rejected before broadcasting

---
 src/falwa/oopinterface.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/falwa/oopinterface.py b/src/falwa/oopinterface.py
index 71c5b0b..9762f92 100644
--- a/src/falwa/oopinterface.py
+++ b/src/falwa/oopinterface.py
@@ -126,7 +126,10 @@ class QGFieldBase(ABC):
         # === Check whether the input field is masked array. If so, turn them to normal array ===
         u_field = self._convert_masked_data(u_field, "u_field")
         v_field = self._convert_masked_data(v_field, "v_field")
-        theta_field = self._convert_masked_data(t_field, "t_field") * np.exp(
+        t_field = self._convert_masked_data(t_field, "t_field")
+        self._check_dimension_of_fields(
+            field=t_field, field_name='t_field', expected_dim=(plev.size, ylat.size, xlon.size))
+        theta_field = t_field * np.exp(
             dry_gas_constant / cp * self._plev_to_height[:, np.newaxis, np.newaxis] / scale_height)
 
         # === Check if ylat is in ascending order and include the equator ===
-- 
2.43.0


From a6405500348d8bbd729d8b637f3ef0d53969f4e1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:13:24 +0000
Subject: [PATCH 28/37] fix: output arrays are initialized before rows that are
 not computed are read

---
 src/falwa/f90_modules/compute_lwa_only_nhn22.f90      | 2 ++
 src/falwa/f90_modules/compute_qref_and_fawa_first.f90 | 1 +
 src/falwa/f90_modules/compute_reference_states.f90    | 2 ++
 3 files changed, 5 insertions(+)

diff --git a/src/falwa/f90_modules/compute_lwa_only_nhn22.f90 b/src/falwa/f90_modules/compute_lwa_only_nhn22.f90
index cb13c44..a59dfa9 100644
--- a/src/falwa/f90_modules/compute_lwa_only_nhn22.f90
+++ b/src/falwa/f90_modules/compute_lwa_only_nhn22.f90
@@ -32,6 +32,8 @@ SUBROUTINE compute_lwa_only_nhn22(pv,uu,qref, &
 
   astarbaro(:,:) = 0.
   ubaro(:,:) = 0.
+  astar1(:,:,:) = 0.
+  astar2(:,:,:) = 0.
   dc = dz/prefac
 
   ! Bounds of y-indices in N/SHem
diff --git a/src/falwa/f90_modules/compute_qref_and_fawa_first.f90 b/src/falwa/f90_modules/compute_qref_and_fawa_first.f90
index 3f6cadb..23c523f 100644
--- a/src/falwa/f90_modules/compute_qref_and_fawa_first.f90
+++ b/src/falwa/f90_modules/compute_qref_and_fawa_first.f90
@@ -55,6 +55,7 @@ SUBROUTINE compute_qref_and_fawa_first(pv, uu, vort, pt, tn0, imax, JMAX, kmax,
   ! **** hemispheric-mean potential temperature ****
   tb(:) = tn0(:)
 
+  qref(:,:) = 0.
   cref(:,:) = 0.
   cbar(:,:) = 0.
 
diff --git a/src/falwa/f90_modules/compute_reference_states.f90 b/src/falwa/f90_modules/compute_reference_states.f90
index 1402b76..db11a17 100644
--- a/src/falwa/f90_modules/compute_reference_states.f90
+++ b/src/falwa/f90_modules/compute_reference_states.f90
@@ -65,6 +65,8 @@ SUBROUTINE compute_reference_states(pv,uu,pt,stat,nlon,nlat,kmax,jd,npart,maxits
     enddo
     tb(:) = tb(:)/wt
 
+    qref(:,:) = 0.
+    u(:,:) = 0.      ! first guess of the iteration
     cref(:,:) = 0.
     cbar(:,:) = 0.
 
-- 
2.43.0


From 1420b32ac5c21c432c37ae8191f99384e44c63c9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:04:52 +0000
Subject: [PATCH 29/37] fix: return barotropic flux terms on the input latitude
 grid in the named tuple

---
 src/falwa/oopinterface.py | 18 +++++++++---------
 1 file changed, 9 insertions(+), 9 deletions(-)

diff --git a/src/falwa/oopinterface.py b/src/falwa/oopinterface.py
index 9762f92..bcc4acb 100644
--- a/src/falwa/oopinterface.py
+++ b/src/falwa/oopinterface.py
@@ -991,15 +991,15 @@ class QGFieldBase(ABC):
                 ['adv_flux_f1', 'adv_flux_f2', 'adv_flux_f3', 'convergence_zonal_advective_flux',
                  'divergence_eddy_momentum_flux', 'meridional_heat_flux', 'lwa_baro', 'u_baro', 'lwa'])
             lwa_and_fluxes = LWA_and_fluxes(
-                self._output_barotropic_flux_terms_storage.adv_flux_f1,
-                self._output_barotropic_flux_terms_storage.adv_flux_f2,
-                self._output_barotropic_flux_terms_storage.adv_flux_f3,
-                self._output_barotropic_flux_terms_storage.convergence_zonal_advective_flux,
-                self._output_barotropic_flux_terms_storage.divergence_eddy_momentum_flux,
-                self._output_barotropic_flux_terms_storage.meridional_heat_flux,
-                self._barotropic_flux_terms_storage.fortran_to_python(self._barotropic_flux_terms_storage.lwa_baro),
-                self._barotropic_flux_terms_storage.fortran_to_python(self._barotropic_flux_terms_storage.u_baro),
-                self._layerwise_flux_terms_storage.fortran_to_python(self._layerwise_flux_terms_storage.lwa))
+                self.adv_flux_f1,
+                self.adv_flux_f2,
+                self.adv_flux_f3,
+                self.convergence_zonal_advective_flux,
+                self.divergence_eddy_momentum_flux,
+                self.meridional_heat_flux,
+                self.lwa_baro,
+                self.u_baro,
+                self.lwa)
             return lwa_and_fluxes
 
     def _compute_flux_vector_phi_baro(self):
-- 
2.43.0


From 2779d1b52a99a5069be81f482647f6077f961d9f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:50:51 +0000
Subject: [PATCH 30/37] fix: arrays handed out by accessors are overwritten by
 later computations

---
 src/falwa/data_storage.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/falwa/data_storage.py b/src/falwa/data_storage.py
index 3d4eb88..254c0ff 100644
--- a/src/falwa/data_storage.py
+++ b/src/falwa/data_storage.py
@@ -101,7 +101,8 @@ class DerivedQuantityStorage:
         return self._northern_hemisphere_results_only
 
     def fortran_to_python(self, phy_field: np.ndarray):
-        return np.swapaxes(phy_field, self.swapaxis_1, self.swapaxis_2)
+        # A copy, because the storage arrays are updated in place by later computations
+        return np.swapaxes(phy_field, self.swapaxis_1, self.swapaxis_2).copy()
 
     def python_to_fortran(self, phy_field: np.ndarray):  # This may not be necessary
         return np.swapaxes(phy_field, self.swapaxis_2, self.swapaxis_1)
-- 
2.43.0


From 83ae24fd4755d74acd259c557e83005cc6b41b91 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:55:51 +0000
Subject: [PATCH 31/37] fix: static stability is None instead of refused before
 interpolation

---
 src/falwa/oopinterface.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/falwa/oopinterface.py b/src/falwa/oopinterface.py
index bcc4acb..c24f8a2 100644
--- a/src/falwa/oopinterface.py
+++ b/src/falwa/oopinterface.py
@@ -1747,6 +1747,8 @@ class QGFieldNH18(QGFieldBase):
         """
         The interpolated static stability.
         """
+        if self._domain_average_storage.static_stability is None:
+            raise ValueError('static_stability is not computed yet.')
         return self._domain_average_storage.static_stability
 
 
@@ -1955,6 +1957,8 @@ class QGFieldNHN22(QGFieldBase):
         """
         The interpolated static stability.
         """
+        if self._domain_average_storage.static_stability_n is None:
+            raise ValueError('static_stability is not computed yet.')
         if self.northern_hemisphere_results_only:
             return self._domain_average_storage.static_stability_n
         else:
-- 
2.43.0


From e92f8f3d8a4a7887ad9de478b65a7d1758dc6c6c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:10:11 +0000
Subject: [PATCH 32/37] fix: rows that belong to no hemisphere have undefined
 stretching terms in compute_qgpv_givenvort

---
 src/falwa/utilities.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/falwa/utilities.py b/src/falwa/utilities.py
index 2577470..04cca0b 100644
--- a/src/falwa/utilities.py
+++ b/src/falwa/utilities.py
@@ -158,8 +158,8 @@ def compute_qgpv_givenvort(omega, nlat, nlon, kmax, unih, ylat, avort,
         2*omega*np.sin(np.deg2rad(ylat[np.newaxis, :, np.newaxis]))
 
     # Calculate the z-divergence term
-    zdiv = np.empty_like(potential_temp)
-    dzdiv = np.empty_like(potential_temp)
+    zdiv = np.zeros_like(potential_temp)
+    dzdiv = np.zeros_like(potential_temp)
     for kk in range(kmax):  # This is more efficient
         zdiv[kk, :nlat_s, :] = exp(-unih[kk]/scale_height)*(
             potential_temp[kk, :nlat_s, :] - t0_cs[kk]
-- 
2.43.0


From 76b903249218f4b10d9f785ee38bec9282fad71e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:35:16 +0000
Subject: [PATCH 33/37] fix: keep the histogram bin inside the partition when
 potential vorticity is uniform or undefined

---
 src/falwa/f90_modules/compute_qref_and_fawa_first.f90 | 4 ++--
 src/falwa/f90_modules/compute_reference_states.f90    | 2 +-
 2 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/falwa/f90_modules/compute_qref_and_fawa_first.f90 b/src/falwa/f90_modules/compute_qref_and_fawa_first.f90
index 23c523f..4cb168c 100644
--- a/src/falwa/f90_modules/compute_qref_and_fawa_first.f90
+++ b/src/falwa/f90_modules/compute_qref_and_fawa_first.f90
@@ -76,7 +76,7 @@ SUBROUTINE compute_qref_and_fawa_first(pv, uu, vort, pt, tn0, imax, JMAX, kmax,
     do j = 1,jmax
       phi0 = -0.5*pi+dphi*float(j-1)
       do i = 1,imax
-        ind = 1+int((qmax-pv2(i,j))/dq)
+        ind = max(1, min(nnd, 1+int((qmax-pv2(i,j))/dq)))
         da = a*a*dphi*dlambda*cos(phi0)
         an(ind) = an(ind) + da
         cn(ind) = cn(ind) + da*pv2(i,j)
@@ -122,7 +122,7 @@ SUBROUTINE compute_qref_and_fawa_first(pv, uu, vort, pt, tn0, imax, JMAX, kmax,
     do j = 1,jmax
       phi0 = -0.5*pi+dphi*float(j-1)
       do i = 1,imax
-      ind = 1+int((qmax-vort2(i,j))/dq)
+      ind = max(1, min(nnd, 1+int((qmax-vort2(i,j))/dq)))
       da = a*a*dphi*dlambda*cos(phi0)
       an(ind) = an(ind) + da
       cn(ind) = cn(ind) + da*vort2(i,j)
diff --git a/src/falwa/f90_modules/compute_reference_states.f90 b/src/falwa/f90_modules/compute_reference_states.f90
index db11a17..0189ae1 100644
--- a/src/falwa/f90_modules/compute_reference_states.f90
+++ b/src/falwa/f90_modules/compute_reference_states.f90
@@ -88,7 +88,7 @@ SUBROUTINE compute_reference_states(pv,uu,pt,stat,nlon,nlat,kmax,jd,npart,maxits
         do j = 1,nlat
             phi0 = -0.5*pi+dphi*float(j-1)
             do i = 1,nlon
-                ind = 1+int((qmax-pv2(i,j))/dq)
+                ind = max(1, min(npart, 1+int((qmax-pv2(i,j))/dq)))
                 da = a*a*dphi*dlambda*cos(phi0)
                 an(ind) = an(ind) + da
                 cn(ind) = cn(ind) + da*pv2(i,j)
-- 
2.43.0


From b31b5482d1119ea6bb48f9981e65eaa7f84fa7f5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:35:16 +0000
Subject: [PATCH 34/37] fix: integration_seconds of integrate_budget for time
 coordinates of any resolution

---
 src/falwa/xarrayinterface.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/falwa/xarrayinterface.py b/src/falwa/xarrayinterface.py
index b6f3653..a66e5ee 100644
--- a/src/falwa/xarrayinterface.py
+++ b/src/falwa/xarrayinterface.py
@@ -736,7 +736,7 @@ def integrate_budget(ds, var_names=None):
     attrs = dict(ds.attrs)
     attrs["integration_start"] = str(start)
     attrs["integration_stop"] = str(stop)
-    attrs["integration_seconds"] = (stop - start) / np.timedelta64(1000000000)
+    attrs["integration_seconds"] = (stop - start) / np.timedelta64(1, "s")
     return xr.Dataset(data_vars, ds.coords, attrs)
 
 
-- 
2.43.0


From 2017fb7cb34ab79a4edd5df607022562bdf28aa7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:35:23 +0000
Subject: [PATCH 35/37] fix: hemisphere_to_globe does not add a latitude axis
 to variables without one

---
 src/falwa/xarrayinterface.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/falwa/xarrayinterface.py b/src/falwa/xarrayinterface.py
index a66e5ee..c7f987c 100644
--- a/src/falwa/xarrayinterface.py
+++ b/src/falwa/xarrayinterface.py
@@ -793,4 +793,4 @@ def hemisphere_to_globe(ds, var_names=None):
     except KeyError:
         pass
     # Assemble global dataset
-    return xr.concat([sd, ds] if eq0 else [ds, sd], dim=ylat_name)
+    return xr.concat([sd, ds] if eq0 else [ds, sd], dim=ylat_name, data_vars="minimal")
-- 
2.43.0


From ea7ba8bb2cd88d6f3a806c9af02c1c121b81cf8e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:36:10 +0000
Subject: [PATCH 36/37] fix: automatic colour scale in
 compare_two_fields_on_map

diff_factor=None is documented to select the automatic colour scale, but
the difference panel multiplied it with the data range (TypeError).
---
 src/falwa/plot_utils.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/src/falwa/plot_utils.py b/src/falwa/plot_utils.py
index 4925810..0aa49b5 100644
--- a/src/falwa/plot_utils.py
+++ b/src/falwa/plot_utils.py
@@ -67,8 +67,11 @@ def compare_two_fields_on_map(
     cs2 = map_on_axis(ax2, x_coord, y_coord, field_b, levels=np.linspace(cmin, cmax, 31), title=b_title,
                       colorbar_label='')
     ax3 = fig.add_subplot(1, 3, 3, projection=ccrs.PlateCarree(180))
-    cs3 = map_on_axis(ax3, x_coord, y_coord, np.abs(field_a - field_b),
-                      levels=np.linspace(0, diff_factor * max([np.abs(cmin), np.abs(cmax)]), 31),
+    if diff_factor:
+        diff_levels = np.linspace(0, diff_factor * max([np.abs(cmin), np.abs(cmax)]), 31)
+    else:
+        diff_levels = None  # auto-colorscale
+    cs3 = map_on_axis(ax3, x_coord, y_coord, np.abs(field_a - field_b), levels=diff_levels,
                       title=f'Abs difference',
                       colorbar_label='')
     plt.suptitle(title)
-- 
2.43.0


From 897d74b56226b067c95bd2f902a2054337866eeb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:36:10 +0000
Subject: [PATCH 37/37] fix: compare_two_fields_on_map uses the colour map it
 is given

The argument cmap was accepted and ignored.
---
 src/falwa/plot_utils.py | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/src/falwa/plot_utils.py b/src/falwa/plot_utils.py
index 0aa49b5..a78295f 100644
--- a/src/falwa/plot_utils.py
+++ b/src/falwa/plot_utils.py
@@ -62,10 +62,10 @@ def compare_two_fields_on_map(
     fig = plt.figure(figsize=figsize)
     ax1 = fig.add_subplot(1, 3, 1, projection=ccrs.PlateCarree(180))
     cs1 = map_on_axis(ax1, x_coord, y_coord, field_a, levels=np.linspace(cmin, cmax, 31), title=a_title,
-                      colorbar_label='')
+                      colorbar_label='', cmap=cmap)
     ax2 = fig.add_subplot(1, 3, 2, projection=ccrs.PlateCarree(180))
     cs2 = map_on_axis(ax2, x_coord, y_coord, field_b, levels=np.linspace(cmin, cmax, 31), title=b_title,
-                      colorbar_label='')
+                      colorbar_label='', cmap=cmap)
     ax3 = fig.add_subplot(1, 3, 3, projection=ccrs.PlateCarree(180))
     if diff_factor:
         diff_levels = np.linspace(0, diff_factor * max([np.abs(cmin), np.abs(cmax)]), 31)
@@ -73,7 +73,7 @@ def compare_two_fields_on_map(
         diff_levels = None  # auto-colorscale
     cs3 = map_on_axis(ax3, x_coord, y_coord, np.abs(field_a - field_b), levels=diff_levels,
                       title=f'Abs difference',
-                      colorbar_label='')
+                      colorbar_label='', cmap=cmap)
     plt.suptitle(title)
     plt.tight_layout()
     if savefig_fname:
@@ -81,7 +81,7 @@ def compare_two_fields_on_map(
     plt.show()
 
 
-def map_on_axis(ax_obj, xlon, ylat, field, levels, title, colorbar_label='ua2 (m/s**2)'):
+def map_on_axis(ax_obj, xlon, ylat, field, levels, title, colorbar_label='ua2 (m/s**2)', cmap='rainbow'):
     # ax_obj.set_extent([0, 360, ylat.min(), ylat.max()], ccrs.PlateCarree())
     ax_obj.coastlines(color='black', alpha=1)
     ax_obj.set_aspect('auto')
@@ -91,7 +91,7 @@ def map_on_axis(ax_obj, xlon, ylat, field, levels, title, colorbar_label='ua2 (m
     lat_formatter = LatitudeFormatter()
     ax_obj.xaxis.set_major_formatter(lon_formatter)
     ax_obj.yaxis.set_major_formatter(lat_formatter)
-    ott = ax_obj.contourf(xlon, ylat, field, levels, transform=ccrs.PlateCarree(), cmap='rainbow')
+    ott = ax_obj.contourf(xlon, ylat, field, levels, transform=ccrs.PlateCarree(), cmap=cmap)
     ax_obj.set_title(title)
     plt.colorbar(ott, ax=ax_obj, label=colorbar_label)
     return ott
-- 
2.43.0

