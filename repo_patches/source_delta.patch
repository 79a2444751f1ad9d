From 3b90dc87322b99fa986ae0e34c93a4130aff5c10 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:29:50 +0000
Subject: [PATCH 01/65] fix: give subhalos the subhalo mass definition and
 field halos the field one

---
 pyHalo/pyhalo.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pyHalo/pyhalo.py b/pyHalo/pyhalo.py
index c516ed1..611f2f7 100644
--- a/pyHalo/pyhalo.py
+++ b/pyHalo/pyhalo.py
@@ -125,9 +125,9 @@ class pyHalo(object):
         mdefs = []
         for i in range(0, len(masses)):
             if subhalo_flag[i]:
-                mdefs += [mdef_field_halos]
-            else:
                 mdefs += [mdef_subhalos]
+            else:
+                mdefs += [mdef_field_halos]
         realization = Realization(masses, x_arcsec, y_arcsec, r3d, mdefs, redshifts, subhalo_flag, self.lens_cosmo,
                                   kwargs_halo_model=kwargs_halo_model,
                                   mass_sheet_correction=True,
-- 
2.43.0


From af270f758ce3bafdb4530b79724ec80720fb1412 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:30:34 +0000
Subject: [PATCH 02/65] fix: no duplicate lens planes or planes at the source
 redshift

---
 pyHalo/utilities.py | 11 ++++++-----
 1 file changed, 6 insertions(+), 5 deletions(-)

diff --git a/pyHalo/utilities.py b/pyHalo/utilities.py
index 7f90b48..fe9b5b5 100644
--- a/pyHalo/utilities.py
+++ b/pyHalo/utilities.py
@@ -90,11 +90,12 @@ def generate_lens_plane_redshifts(zlens, zsource, lens_plane_spacing=None):
         front_z = np.arange(zmin, zlens, lens_plane_spacing)
         back_z = np.arange(zlens, zsource, lens_plane_spacing)
         redshifts = np.append(front_z, back_z)
-    delta_zs = []
-    for i in range(0, len(redshifts) - 1):
-        delta_zs.append(redshifts[i + 1] - redshifts[i])
-    delta_zs.append(zsource - redshifts[-1])
-    return list(np.round(redshifts, 2)), np.round(delta_zs, 2)
+    # np.arange can include its end point through round off; this removes duplicates of the main lens plane and planes at
+    # or behind the source, and makes the slice thickness match the (rounded) plane redshifts
+    redshifts = np.unique(np.round(redshifts, 2))
+    redshifts = redshifts[redshifts < zsource]
+    delta_zs = np.diff(np.append(redshifts, zsource))
+    return list(redshifts), np.round(delta_zs, 6)
 
 def interpolate_ray_paths(x_coordinates, y_coordinates, lens_model, kwargs_lens, zsource,
                           terminate_at_source=False, source_x=None, source_y=None, evaluate_at_mean=False,
-- 
2.43.0


From 44a35feca2c63b6c6596c6b49ff73011fd7c239d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:30:34 +0000
Subject: [PATCH 03/65] fix: include the last slice in the total rendering
 volume

---
 pyHalo/Cosmology/geometry.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pyHalo/Cosmology/geometry.py b/pyHalo/Cosmology/geometry.py
index bff62e6..c9a9874 100644
--- a/pyHalo/Cosmology/geometry.py
+++ b/pyHalo/Cosmology/geometry.py
@@ -54,8 +54,8 @@ class Geometry(object):
         volume = 0
         delta_z = 0.01
         z = np.arange(0.0, self._zsource, delta_z)
-        for i in range(0, len(z) - 1):
-            volume += self.volume_element_comoving(z[i], delta_z)
+        for i in range(0, len(z)):
+            volume += self.volume_element_comoving(z[i], min(delta_z, self._zsource - z[i]))
         return volume
 
     def rendering_scale(self, z):
-- 
2.43.0


From e2bee7d6b7ca9b55066bd5c3411e83537474d359 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:30:34 +0000
Subject: [PATCH 04/65] fix: halo_age accepts arrays of redshifts

---
 pyHalo/Cosmology/cosmology.py | 6 ++----
 1 file changed, 2 insertions(+), 4 deletions(-)

diff --git a/pyHalo/Cosmology/cosmology.py b/pyHalo/Cosmology/cosmology.py
index 736354f..d5725e5 100644
--- a/pyHalo/Cosmology/cosmology.py
+++ b/pyHalo/Cosmology/cosmology.py
@@ -110,10 +110,8 @@ class Cosmology(object):
                 self._cache_age[key] = v
             return v
         halo_form = self._halo_age_interp(zform)
-        if z > zform:
-            return 0
-        else:
-            return self._halo_age_interp(z) - halo_form
+        z = np.asarray(z)
+        return np.where(z > zform, 0.0, self._halo_age_interp(z) - halo_form)
 
     @property
     def _halo_age_interp(self):
-- 
2.43.0


From 28de0b53a909e3c6623b193c9e497836317fca29 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:31:49 +0000
Subject: [PATCH 05/65] fix: mass functions and two-halo term use the cosmology
 of their own instance

---
 pyHalo/Cosmology/cosmology.py | 2 ++
 pyHalo/Halos/lens_cosmo.py    | 3 ++-
 2 files changed, 4 insertions(+), 1 deletion(-)

diff --git a/pyHalo/Cosmology/cosmology.py b/pyHalo/Cosmology/cosmology.py
index d5725e5..223fc4f 100644
--- a/pyHalo/Cosmology/cosmology.py
+++ b/pyHalo/Cosmology/cosmology.py
@@ -98,6 +98,8 @@ class Cosmology(object):
 
     @property
     def colossus(self):
+        # colossus functions evaluate with the global "current" cosmology, so make this instance's cosmology the current one
+        cosmology.setCurrent(self._colossus_cosmo)
         return self._colossus_cosmo
 
     def halo_age(self, z, zform=10):
diff --git a/pyHalo/Halos/lens_cosmo.py b/pyHalo/Halos/lens_cosmo.py
index 794680e..1bed3f1 100644
--- a/pyHalo/Halos/lens_cosmo.py
+++ b/pyHalo/Halos/lens_cosmo.py
@@ -170,7 +170,8 @@ class LensCosmo(object):
         h = self.cosmo.h
         M_h = M * h
         r_h = r * h
-        rho_2h = twoHaloTerm(r_h, M_h, z, mdef=mdef) / self.cosmo._colossus_cosmo.rho_m(z)
+        colossus_cosmo = self.cosmo.colossus
+        rho_2h = twoHaloTerm(r_h, M_h, z, mdef=mdef) / colossus_cosmo.rho_m(z)
         return rho_2h
 
     def nfw_physical2angle(self, m, c, z, pseudo_nfw=False):
-- 
2.43.0


From 6143ad5963fa14a7b80f66f126fc2f9e0a6d08f0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:08:51 +0000
Subject: [PATCH 06/65] fix: MassiveGalaxy no longer overwrites its method with
 the normalization

---
 pyHalo/Halos/HaloModels/sis.py | 11 +++--------
 1 file changed, 3 insertions(+), 8 deletions(-)

diff --git a/pyHalo/Halos/HaloModels/sis.py b/pyHalo/Halos/HaloModels/sis.py
index 5e3e364..8808aaf 100644
--- a/pyHalo/Halos/HaloModels/sis.py
+++ b/pyHalo/Halos/HaloModels/sis.py
@@ -183,7 +183,7 @@ class MassiveGalaxy(Halo):
         Calculates the density normalization that conserves mass within x_match
         :return:
         """
-        if not hasattr(self, '_rho0_norm'):
+        if not hasattr(self, '_alpha_Rs_norm'):
             kpc_per_arcsec = self._lens_cosmo.cosmo.kpc_proper_per_asec(self.z)
             m_nfw = self._nfw_halo.mass_3d('r200')
             if self._nfw_halo.is_subhalo:
@@ -197,14 +197,9 @@ class MassiveGalaxy(Halo):
             gamma_outer = self._args['gamma_outer']
             sigma_crit_mpc = self._lens_cosmo.get_sigma_crit_lensing(self.z, self._lens_cosmo.z_source)
             sigma_crit_arcsec = sigma_crit_mpc * (0.001 * kpc_per_arcsec) ** 2
-            self._alphaRs = m_nfw / self._prof.mass_3d_lens(r_match_arcsec,
+            self._alpha_Rs_norm = m_nfw / self._prof.mass_3d_lens(r_match_arcsec,
                                                             rs_arcsec,
                                                             1.0,
                                                             gamma_inner,
                                                             gamma_outer) / sigma_crit_arcsec
-        return self._alphaRs
-
-
-
-
-
+        return self._alpha_Rs_norm
-- 
2.43.0


From e52becc38f3a85570b5b0f3bf754ac417dc624e1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:08:57 +0000
Subject: [PATCH 07/65] fix: shifting a realization moves copies of its halos,
 keeps the unshifted ones and drops cached positions

---
 pyHalo/Halos/HaloModels/NFW_core_trunc.py |  9 +++++++++
 pyHalo/Halos/halo_base.py                 | 17 +++++++++++++++++
 pyHalo/single_realization.py              | 21 +++++++--------------
 3 files changed, 33 insertions(+), 14 deletions(-)

diff --git a/pyHalo/Halos/HaloModels/NFW_core_trunc.py b/pyHalo/Halos/HaloModels/NFW_core_trunc.py
index 710603f..6d4b8dd 100644
--- a/pyHalo/Halos/HaloModels/NFW_core_trunc.py
+++ b/pyHalo/Halos/HaloModels/NFW_core_trunc.py
@@ -298,6 +298,15 @@ class Hybrid(Halo):
                                      self.tnfw_halo.is_subhalo, self.tnfw_halo.lens_cosmo,
                                      self.tnfw_halo._args, self.tnfw_halo.unique_tag)
 
+    def shifted(self, x_shift, y_shift):
+        """
+        See documentation in base class (Halos/halo_base.py)
+        """
+        halo = super(Hybrid, self).shifted(x_shift, y_shift)
+        halo.tnfw_halo = self.tnfw_halo.shifted(x_shift, y_shift)
+        halo.tnfwc_halo = self.tnfwc_halo.shifted(x_shift, y_shift)
+        return halo
+
     @property
     def vmax_nfw(self):
         """
diff --git a/pyHalo/Halos/halo_base.py b/pyHalo/Halos/halo_base.py
index 9d01995..5a06e09 100644
--- a/pyHalo/Halos/halo_base.py
+++ b/pyHalo/Halos/halo_base.py
@@ -1,4 +1,5 @@
 from abc import ABC, abstractmethod
+from copy import copy
 import numpy as np
 from scipy.integrate import quad
 
@@ -45,6 +46,22 @@ class Halo(ABC):
         self._rescaled_once = False
         assert z > 0, 'Negative redshifts are unphysical for halos'
 
+    def shifted(self, x_shift, y_shift):
+        """
+        Returns a copy of the halo at a different angular position; everything except for the position of the halo
+        stays the same
+        :param x_shift: the shift of the x coordinate [arcsec]
+        :param y_shift: the shift of the y coordinate [arcsec]
+        :return: an instance of the same class with the same unique tag
+        """
+        halo = copy(self)
+        halo.x = self.x + x_shift
+        halo.y = self.y + y_shift
+        # these contain the position of the halo
+        for name in ['_kwargs_lenstronomy', '_lenstronomy_args', '_lenstronomy_args_split', '_lenstronomy_params']:
+            halo.__dict__.pop(name, None)
+        return halo
+
     @property
     def args_profile(self):
         return self._args
diff --git a/pyHalo/single_realization.py b/pyHalo/single_realization.py
index 283367d..b1d2069 100644
--- a/pyHalo/single_realization.py
+++ b/pyHalo/single_realization.py
@@ -396,26 +396,19 @@ class Realization(object):
         if self._has_been_shifted:
             return self
 
-        halos_out = []
-        to_shift = []
-        for halo in self.halos:
-            if halo.fixed_position:
-                halos_out.append(halo)
-                continue
-            if halo.z < min_shift_redshift:
-                continue
-            to_shift.append(halo)
-            halos_out.append(halo)
+        # the halos of this realization (and of any other realization that contains them) stay where they are
+        halos_out = list(self.halos)
+        to_shift = [i for i, halo in enumerate(self.halos)
+                    if not halo.fixed_position and halo.z >= min_shift_redshift]
 
         if to_shift:
             # D_C_z is memoized, so this loop is cheap; the win is evaluating the ray
             # interpolators on the whole array at once (interp1d is ~100x faster batched)
-            Dc = np.array([self.lens_cosmo.cosmo.D_C_z(h.z) for h in to_shift])
+            Dc = np.array([self.lens_cosmo.cosmo.D_C_z(self.halos[i].z) for i in to_shift])
             xshift = np.atleast_1d(ray_interp_x(Dc))
             yshift = np.atleast_1d(ray_interp_y(Dc))
-            for halo, xs, ys in zip(to_shift, xshift, yshift):
-                halo.x += float(xs)
-                halo.y += float(ys)
+            for i, xs, ys in zip(to_shift, xshift, yshift):
+                halos_out[i] = self.halos[i].shifted(float(xs), float(ys))
 
         new_realization = Realization.from_halos(halos_out, self.lens_cosmo, self.kwargs_halo_model,
                                                  self.apply_mass_sheet_correction,
-- 
2.43.0


From 9dcfa2b06a6d7f4571d3ab36a24fea4b6f3a8922 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:08:57 +0000
Subject: [PATCH 08/65] fix: equality of realizations compares all halos of
 both

---
 pyHalo/single_realization.py | 8 +-------
 1 file changed, 1 insertion(+), 7 deletions(-)

diff --git a/pyHalo/single_realization.py b/pyHalo/single_realization.py
index b1d2069..680e9b1 100644
--- a/pyHalo/single_realization.py
+++ b/pyHalo/single_realization.py
@@ -808,13 +808,7 @@ class Realization(object):
         :param other_reealization:
         :return:
         """
-        tags = self._tags(self.halos)
-        other_tags = other_reealization._tags()
-        for tag in other_tags:
-            if tag not in tags:
-                return False
-        else:
-            return True
+        return sorted(self._tags()) == sorted(other_reealization._tags())
 
     def plot(self, ax, annotation='', color_normalization=6, marker_size_normalization=7.5, marker_size_scaling=1.0,
              view_init_1=30.0, view_init_2=70.0, r_max=None, ray_interp_x_list=None, ray_interp_y_list=None):
-- 
2.43.0


From fc1fd670c65ff0e0ed1f0ceeb9158f63031b72f7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:09:06 +0000
Subject: [PATCH 09/65] fix: realizations derived from a shifted realization
 remember the shift

---
 pyHalo/single_realization.py | 39 +++++++++++++++++++++++-------------
 1 file changed, 25 insertions(+), 14 deletions(-)

diff --git a/pyHalo/single_realization.py b/pyHalo/single_realization.py
index 680e9b1..b96ab2c 100644
--- a/pyHalo/single_realization.py
+++ b/pyHalo/single_realization.py
@@ -49,11 +49,13 @@ def realization_at_z(realization,
     centerx, centery = realization.rendering_center
     kwargs_halo_model = realization.kwargs_halo_model
     geometry = realization.geometry
-    return Realization.from_halos(halos, realization.lens_cosmo,
-                                  kwargs_halo_model,
-                                  mass_sheet_correction,
-                                  realization.rendering_classes,
-                                  centerx, centery, geometry), indexes
+    new_realization = Realization.from_halos(halos, realization.lens_cosmo,
+                                             kwargs_halo_model,
+                                             mass_sheet_correction,
+                                             realization.rendering_classes,
+                                             centerx, centery, geometry)
+    new_realization._has_been_shifted = realization._has_been_shifted
+    return new_realization, indexes
 
 class Realization(object):
 
@@ -227,9 +229,11 @@ class Realization(object):
             dy = self.y[check, None] - np.asarray(y_coords)[None, :]
             keep[check] = np.any(np.hypot(dx, dy) < aperture_radius_arcsec, axis=1)
         halos = [self.halos[i] for i in np.where(keep)[0]]
-        return Realization.from_halos(halos, self.lens_cosmo, self.kwargs_halo_model,
-                                      self.apply_mass_sheet_correction, self.rendering_classes,
-                                      self._rendering_center_x, self._rendering_center_y, self.geometry)
+        new_realization = Realization.from_halos(halos, self.lens_cosmo, self.kwargs_halo_model,
+                                                 self.apply_mass_sheet_correction, self.rendering_classes,
+                                                 self._rendering_center_x, self._rendering_center_y, self.geometry)
+        new_realization._has_been_shifted = self._has_been_shifted
+        return new_realization
 
     def filter(self, aperture_radius,
                log10_mass_allowed_global,
@@ -315,9 +319,11 @@ class Realization(object):
             for i in inds_keep_at_plane:
                 halos.append(plane_halos[i])
 
-        return Realization.from_halos(halos, self.lens_cosmo, self.kwargs_halo_model,
-                                      self.apply_mass_sheet_correction, self.rendering_classes,
-                                      self._rendering_center_x, self._rendering_center_y, self.geometry)
+        new_realization = Realization.from_halos(halos, self.lens_cosmo, self.kwargs_halo_model,
+                                                 self.apply_mass_sheet_correction, self.rendering_classes,
+                                                 self._rendering_center_x, self._rendering_center_y, self.geometry)
+        new_realization._has_been_shifted = self._has_been_shifted
+        return new_realization
 
     def set_rendering_classes(self, rendering_classes):
 
@@ -377,9 +383,11 @@ class Realization(object):
             rendering_classes = self.rendering_classes
 
         centerx, centery = self.rendering_center
-        return Realization.from_halos(halos, self.lens_cosmo, self.kwargs_halo_model,
-                                      self.apply_mass_sheet_correction, rendering_classes,
-                                      centerx, centery, self.geometry)
+        new_realization = Realization.from_halos(halos, self.lens_cosmo, self.kwargs_halo_model,
+                                                 self.apply_mass_sheet_correction, rendering_classes,
+                                                 centerx, centery, self.geometry)
+        new_realization._has_been_shifted = self._has_been_shifted or real._has_been_shifted
+        return new_realization
 
     def shift_background_to_source(self, ray_interp_x, ray_interp_y, min_shift_redshift=0):
         """
@@ -525,6 +533,9 @@ class Realization(object):
                                                self.kwargs_halo_model, self.apply_mass_sheet_correction, self.rendering_classes,
                                                centerx, centery, self.geometry)
 
+        realization_1._has_been_shifted = self._has_been_shifted
+        realization_2._has_been_shifted = self._has_been_shifted
+
         return realization_1, realization_2
 
     def halo_comoving_coordinates(self):
-- 
2.43.0


From 7ad31f869090d659a12b7d8143fd5daf8bb0c07a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:09:06 +0000
Subject: [PATCH 10/65] fix: sub-resolution black holes follow the center of
 the rendering volume

---
 pyHalo/realization_extensions.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/pyHalo/realization_extensions.py b/pyHalo/realization_extensions.py
index 9cccdba..26ca2e7 100644
--- a/pyHalo/realization_extensions.py
+++ b/pyHalo/realization_extensions.py
@@ -140,8 +140,10 @@ class RealizationExtensions(object):
             x_kpc, y_kpc = uniform_spatial_distribution.draw(len(mass_sub_resolution),
                                                              zi)
             kpc_per_arcsec = self._realization.lens_cosmo.cosmo.kpc_proper_per_asec(zi)
-            x = x_kpc / kpc_per_arcsec
-            y = y_kpc / kpc_per_arcsec
+            center_x, center_y = self._realization.rendering_center
+            comoving_distance = self._realization.lens_cosmo.cosmo.D_C_transverse(zi)
+            x = x_kpc / kpc_per_arcsec + float(center_x(comoving_distance))
+            y = y_kpc / kpc_per_arcsec + float(center_y(comoving_distance))
             for m_bh, x_bh, y_bh in zip(mass_sub_resolution, x, y):
                 if m_bh > 10 ** log10_min_mbh:
                     mbh = BlackHole(m_bh * 10 ** log10_mass_ratio,
-- 
2.43.0


From 784e9d1c1ab5c1ab02c0f926e8e73dc2107f0e3a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:09:06 +0000
Subject: [PATCH 11/65] fix: SIS and black hole realizations remember the shift

---
 pyHalo/realization_extensions.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/pyHalo/realization_extensions.py b/pyHalo/realization_extensions.py
index 26ca2e7..d802a9c 100644
--- a/pyHalo/realization_extensions.py
+++ b/pyHalo/realization_extensions.py
@@ -67,6 +67,7 @@ class RealizationExtensions(object):
                                              self._realization._rendering_center_x,
                                              self._realization._rendering_center_y,
                                              self._realization.geometry)
+        realization._has_been_shifted = self._realization._has_been_shifted
         return realization
 
     def add_black_holes(self, log10_mass_ratio,
@@ -167,6 +168,7 @@ class RealizationExtensions(object):
                                    self._realization._rendering_center_x,
                                    self._realization._rendering_center_y,
                                    self._realization.geometry)
+        mbh_realization._has_been_shifted = self._realization._has_been_shifted
         return mbh_realization
 
     def add_globular_clusters(self, log10_mgc_mean, log10_mgc_sigma, rendering_radius_arcsec,
-- 
2.43.0


From 69bf57d9988632c7074b202820a4a4d2d7deb14c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:09:18 +0000
Subject: [PATCH 12/65] fix: apply the black hole mass limits to sub-resolution
 black holes

---
 pyHalo/realization_extensions.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/pyHalo/realization_extensions.py b/pyHalo/realization_extensions.py
index d802a9c..b6e57d9 100644
--- a/pyHalo/realization_extensions.py
+++ b/pyHalo/realization_extensions.py
@@ -145,9 +145,10 @@ class RealizationExtensions(object):
             comoving_distance = self._realization.lens_cosmo.cosmo.D_C_transverse(zi)
             x = x_kpc / kpc_per_arcsec + float(center_x(comoving_distance))
             y = y_kpc / kpc_per_arcsec + float(center_y(comoving_distance))
-            for m_bh, x_bh, y_bh in zip(mass_sub_resolution, x, y):
+            for m_halo, x_bh, y_bh in zip(mass_sub_resolution, x, y):
+                m_bh = min(10 ** log10_mass_maximum, m_halo * 10 ** log10_mass_ratio)
                 if m_bh > 10 ** log10_min_mbh:
-                    mbh = BlackHole(m_bh * 10 ** log10_mass_ratio,
+                    mbh = BlackHole(m_bh,
                                     x_bh,
                                     y_bh,
                                     r3d=None,
-- 
2.43.0


From 03f927214bfe4ffaea452f84d0bf088e4f5b9e33 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:14:27 +0000
Subject: [PATCH 13/65] fix: mass_3d of a TNFW halo includes the rescaled
 normalization on the first call

---
 pyHalo/Halos/HaloModels/TNFW.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/pyHalo/Halos/HaloModels/TNFW.py b/pyHalo/Halos/HaloModels/TNFW.py
index 3bdfca7..c5ef7c8 100644
--- a/pyHalo/Halos/HaloModels/TNFW.py
+++ b/pyHalo/Halos/HaloModels/TNFW.py
@@ -140,9 +140,10 @@ class TNFWFieldHalo(Halo):
         """
         if rmax == 'r200':
             rmax = self.nfw_params[1] * self.c
+        # computing the truncation radius can rescale the normalization, so it has to come first
+        r_trunc = self.profile_args[1]
         rs = self.nfw_params[1]
         rho0 = self.nfw_params[0] * self._rescale_norm
-        r_trunc = self.profile_args[1]
         return self.tnfw_lenstronomy.mass_3d(rmax, rs, rho0, r_trunc/rs)
 
     def density_profile_3d_lenstronomy(self, r, profile_args=None):
-- 
2.43.0


From a2e1a1a6a2400e483d72a2e1a0bcbf748ad73f69 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:14:27 +0000
Subject: [PATCH 14/65] fix: mass_2d of TNFW halos works with numpy 2

---
 pyHalo/Halos/HaloModels/TNFW.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pyHalo/Halos/HaloModels/TNFW.py b/pyHalo/Halos/HaloModels/TNFW.py
index c5ef7c8..05c604e 100644
--- a/pyHalo/Halos/HaloModels/TNFW.py
+++ b/pyHalo/Halos/HaloModels/TNFW.py
@@ -94,7 +94,7 @@ class TNFWFieldHalo(Halo):
         sigma_crit_mpc = self._lens_cosmo.get_sigma_crit_lensing(self.z, self._lens_cosmo.z_source)
         sigma_crit_kpc = sigma_crit_mpc * 1e-6
         sigma_crit_arcsec = sigma_crit_kpc * kpc_per_arcsec ** 2
-        return np.trapz(kappa * 2 * np.pi * x, x) * sigma_crit_arcsec
+        return np.trapezoid(kappa * 2 * np.pi * x, x) * sigma_crit_arcsec
 
     def deflection_angle(self, r_arcsec):
         """
-- 
2.43.0


From babef56027ee361ab070b12f776e522094fa1cb4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:14:27 +0000
Subject: [PATCH 15/65] fix: mass_2d of core collapsed halos integrates in kpc
 with the critical density per kpc^2

---
 pyHalo/Halos/HaloModels/core_collapsed_halo.py | 4 +---
 1 file changed, 1 insertion(+), 3 deletions(-)

diff --git a/pyHalo/Halos/HaloModels/core_collapsed_halo.py b/pyHalo/Halos/HaloModels/core_collapsed_halo.py
index 564cb73..cb750eb 100644
--- a/pyHalo/Halos/HaloModels/core_collapsed_halo.py
+++ b/pyHalo/Halos/HaloModels/core_collapsed_halo.py
@@ -106,9 +106,7 @@ class CoreCollapsedHalo(Halo):
         kappa = self.kappa(r)
         sigma_crit_mpc = self._lens_cosmo.get_sigma_crit_lensing(self.z, self._lens_cosmo.z_source)
         sigma_crit_kpc = sigma_crit_mpc * 1e-6
-        sigma_crit_arcsec = (sigma_crit_kpc *
-                             self._lens_cosmo.cosmo.kpc_proper_per_asec(self.z) ** 2)
-        return np.trapezoid(kappa * 2 * np.pi * r, r) * sigma_crit_arcsec
+        return np.trapezoid(kappa * 2 * np.pi * r, r) * sigma_crit_kpc
 
     @property
     def c(self):
-- 
2.43.0


From a8dcc3a3ec1ad37678103bf66db3cf477ce50f42 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:14:27 +0000
Subject: [PATCH 16/65] fix: lenstronomy_params_split of CoreCollapsedHaloBH
 does not overwrite lenstronomy_params

---
 pyHalo/Halos/HaloModels/core_collapsed_halo.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/pyHalo/Halos/HaloModels/core_collapsed_halo.py b/pyHalo/Halos/HaloModels/core_collapsed_halo.py
index cb750eb..7645718 100644
--- a/pyHalo/Halos/HaloModels/core_collapsed_halo.py
+++ b/pyHalo/Halos/HaloModels/core_collapsed_halo.py
@@ -321,9 +321,9 @@ class CoreCollapsedHaloBH(CoreCollapsedHalo):
                                'Rs': Rs_angle,
                         'alpha_Rs': alpha_Rs_envelope,
                         'r_trunc': r_trunc_arcsec}
-            kwargs_center = {'theta_E': theta_E_inner, 'center_x': x, 'cetner_y': y}
-            self._lenstronomy_args = [kwargs_center, kwargs_envelope]
-        return self._lenstronomy_args, None
+            kwargs_center = {'theta_E': theta_E_inner, 'center_x': x, 'center_y': y}
+            self._lenstronomy_args_split = [kwargs_center, kwargs_envelope]
+        return self._lenstronomy_args_split, None
 
     @property
     def lenstronomy_params(self):
-- 
2.43.0


From e7c4dcb7b7494a2034e74b983f165739e4e06d7d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:14:27 +0000
Subject: [PATCH 17/65] fix: import the class of the TNFWC_SIDM mass definition

---
 pyHalo/single_realization.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/pyHalo/single_realization.py b/pyHalo/single_realization.py
index b96ab2c..b737f86 100644
--- a/pyHalo/single_realization.py
+++ b/pyHalo/single_realization.py
@@ -4,6 +4,7 @@ from pyHalo.Halos.lens_cosmo import LensCosmo
 from pyHalo.Halos.HaloModels.NFW import NFWSubhhalo, NFWFieldHalo
 from pyHalo.Halos.HaloModels.TNFW import TNFWFieldHalo, TNFWSubhalo
 from pyHalo.Halos.HaloModels.generalized_nfw import GeneralNFWFieldHalo, GeneralNFWSubhalo
+from pyHalo.Halos.HaloModels.NFW_core_trunc import TNFWCHaloEvolving
 from pyHalo.Halos.HaloModels.powerlaw import PowerLawFieldHalo, PowerLawSubhalo
 from pyHalo.Halos.HaloModels.PsuedoJaffe import PJaffeSubhalo
 from pyHalo.Halos.HaloModels.blackhole import BlackHole
-- 
2.43.0


From 12c60f9f018075af7abbd2839fc4c334fbff764f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:14:27 +0000
Subject: [PATCH 18/65] fix: profile_args of Hybrid halos is a property like in
 all other halo classes

---
 pyHalo/Halos/HaloModels/NFW_core_trunc.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/pyHalo/Halos/HaloModels/NFW_core_trunc.py b/pyHalo/Halos/HaloModels/NFW_core_trunc.py
index 6d4b8dd..9e12a7b 100644
--- a/pyHalo/Halos/HaloModels/NFW_core_trunc.py
+++ b/pyHalo/Halos/HaloModels/NFW_core_trunc.py
@@ -344,8 +344,9 @@ class Hybrid(Halo):
             self._c = self.tnfw_halo.c
         return self._c
 
+    @property
     def profile_args(self):
-        return [self.tnfw_halo.profile_args(), self.tnfwc_halo.profile_args()]
+        return [self.tnfw_halo.profile_args, self.tnfwc_halo.profile_args]
 
     @property
     def lenstronomy_params(self):
-- 
2.43.0


From 4ce76cdeeef618248ea7a3c662934c72449202dc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:14:27 +0000
Subject: [PATCH 19/65] fix: rescaling the normalization of a halo updates
 vmax_nfw

---
 pyHalo/Halos/halo_base.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/pyHalo/Halos/halo_base.py b/pyHalo/Halos/halo_base.py
index 5a06e09..55f823c 100644
--- a/pyHalo/Halos/halo_base.py
+++ b/pyHalo/Halos/halo_base.py
@@ -96,6 +96,8 @@ class Halo(ABC):
                 delattr(self, '_kwargs_lenstronomy')
             if hasattr(self, '_nfw_params'):
                 delattr(self, '_nfw_params')
+            if hasattr(self, '_vmax'):
+                delattr(self, '_vmax')
         elif self._rescaled_once:
             pass
         else:
@@ -108,6 +110,8 @@ class Halo(ABC):
                 delattr(self, '_kwargs_lenstronomy')
             if hasattr(self, '_nfw_params'):
                 delattr(self, '_nfw_params')
+            if hasattr(self, '_vmax'):
+                delattr(self, '_vmax')
 
     @property
     @abstractmethod
-- 
2.43.0


From fb4fecaea708a195ffbd6bc097a6ed05f7e9699c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:14:27 +0000
Subject: [PATCH 20/65] fix: params_physical of PJaffe halos uses the scale
 radius

---
 pyHalo/Halos/HaloModels/PsuedoJaffe.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pyHalo/Halos/HaloModels/PsuedoJaffe.py b/pyHalo/Halos/HaloModels/PsuedoJaffe.py
index ed33abc..d22bece 100644
--- a/pyHalo/Halos/HaloModels/PsuedoJaffe.py
+++ b/pyHalo/Halos/HaloModels/PsuedoJaffe.py
@@ -35,7 +35,7 @@ class PJaffeSubhalo(Halo):
             concentration = self.profile_args
             rhos, rs, r200 = self._lens_cosmo.NFW_params_physical(self.mass, concentration, self.z_eval)
             ra_kpc = 0.01 * rs
-            rho = self._rho(self.mass, ra_kpc, ra_kpc, self.c * rs)
+            rho = self._rho(self.mass, rs, ra_kpc, self.c * rs)
             self._params_physical = {'rhos': rhos, 'rs': rs, 'r200': r200, 'rho': rho}
 
         return self._params_physical
-- 
2.43.0


From ee1598586855f59fa61d9bdff69b0a9a19db495e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:14:28 +0000
Subject: [PATCH 21/65] fix: general NFW halos are normalized with their own
 scale radius

---
 pyHalo/Halos/HaloModels/generalized_nfw.py | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/pyHalo/Halos/HaloModels/generalized_nfw.py b/pyHalo/Halos/HaloModels/generalized_nfw.py
index 81020d4..0eed4c6 100644
--- a/pyHalo/Halos/HaloModels/generalized_nfw.py
+++ b/pyHalo/Halos/HaloModels/generalized_nfw.py
@@ -99,8 +99,8 @@ class GeneralNFWSubhalo(Halo):
         if not hasattr(self, '_rho0_norm'):
             (concentration, gamma_inner, gamma_outer) = self.profile_args
             rhos, rs_nfw, r200 = self._lens_cosmo.NFW_params_physical(self.mass, concentration, self.z_eval)
-            if 'r_transition' not in self._args.keys():
-                self._args['r_transition'] = rs_nfw
+            # self._args is shared between halos
+            r_transition = self._args.get('r_transition', rs_nfw)
             kpc_per_arcsec = self._lens_cosmo.cosmo.kpc_proper_per_asec(self.z)
             if 'x_match' in self._args.keys():
                 if self._args['x_match'] == 'c':
@@ -110,13 +110,13 @@ class GeneralNFWSubhalo(Halo):
             else:
                 # r_vmax = 2.16 * rs
                 x_match = 2.16
-            rs_arcsec = self._args['r_transition'] / kpc_per_arcsec
-            r_match_arcsec = x_match * self._args['r_transition'] / kpc_per_arcsec
+            rs_arcsec = r_transition / kpc_per_arcsec
+            r_match_arcsec = x_match * r_transition / kpc_per_arcsec
             if 'mass_conservation' in self._args.keys():
                 m_match = self._args['mass_conservation']
             else:
                 fx = np.log(1 + x_match) - x_match / (1 + x_match)
-                m_match = 4 * np.pi * self._args['r_transition'] ** 3 * rhos * fx
+                m_match = 4 * np.pi * r_transition ** 3 * rhos * fx
             sigma_crit_arcsec = self._lens_cosmo.sigma_crit_arcsecond_interp(self.z)
             self._rho0_norm = m_match / self._prof.mass_3d(r_match_arcsec, rs_arcsec, sigma_crit_arcsec, gamma_inner, gamma_outer)
         return self._rho0_norm
-- 
2.43.0


From 97f645275114adda7a064bd170453d7abb31561c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:18:09 +0000
Subject: [PATCH 22/65] fix: SIS and MassiveGalaxy keep the infall redshift of
 their halo

---
 pyHalo/Halos/HaloModels/sis.py | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/pyHalo/Halos/HaloModels/sis.py b/pyHalo/Halos/HaloModels/sis.py
index 8808aaf..db48fce 100644
--- a/pyHalo/Halos/HaloModels/sis.py
+++ b/pyHalo/Halos/HaloModels/sis.py
@@ -29,6 +29,9 @@ class SIS(Halo):
                                   args=nfw_halo._args,
                                   unique_tag=nfw_halo.unique_tag,
                                   fixed_position=nfw_halo.fixed_position)
+        if nfw_halo.is_subhalo:
+            # the object fell into the host together with the halo it is created from
+            self._z_infall = nfw_halo.z_infall
 
     @property
     def profile_args(self):
@@ -92,6 +95,9 @@ class MassiveGalaxy(Halo):
                                   args=halo_args,
                                   unique_tag=nfw_halo.unique_tag,
                                   fixed_position=nfw_halo.fixed_position)
+        if nfw_halo.is_subhalo:
+            # the object fell into the host together with the halo it is created from
+            self._z_infall = nfw_halo.z_infall
 
     def density_profile_3d_lenstronomy(self, r, profile_args=None):
         """
-- 
2.43.0


From 0c331699c85aa2abb42a875daa14068b64531ed1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:39:41 +0000
Subject: [PATCH 23/65] fix: halos made from physical parameters keep them when
 their normalization is rescaled

---
 pyHalo/Halos/HaloModels/TNFWFromParams.py | 31 ++++++++++++++++++-----
 1 file changed, 24 insertions(+), 7 deletions(-)

diff --git a/pyHalo/Halos/HaloModels/TNFWFromParams.py b/pyHalo/Halos/HaloModels/TNFWFromParams.py
index b56cde4..3b25f0a 100644
--- a/pyHalo/Halos/HaloModels/TNFWFromParams.py
+++ b/pyHalo/Halos/HaloModels/TNFWFromParams.py
@@ -24,8 +24,8 @@ class TNFWFromParams(TNFWSubhalo):
         x = x_kpc / self._kpc_per_arcsec_at_z
         y = y_kpc / self._kpc_per_arcsec_at_z
         keys_physical = (self.KEY_RV,self.KEY_RS,self.KEY_RHO_S,self.KEY_RV,self.KEY_RT)
-        self._params_physical = {key:args[key] for key in keys_physical}
-        self._c = self._params_physical[self.KEY_RV] / self._params_physical[self.KEY_RS]
+        self._params_input = {key:args[key] for key in keys_physical}
+        self._c = self._params_input[self.KEY_RV] / self._params_input[self.KEY_RS]
         self.id = args.get(self.KEY_ID)
         self._z_infall = args.get(self.KEY_Z_INFALL)
         super(TNFWFromParams, self).__init__(mass,x,y,r3d,z,sub_flag,lens_cosmo_instance,args,None,None,unique_tag)
@@ -37,7 +37,7 @@ class TNFWFromParams(TNFWSubhalo):
         :return: the density profile in units M_sun / kpc^3
         """
 
-        _params = self._params_physical if params_physical is None else params_physical
+        _params = self._params_input if params_physical is None else params_physical
 
         r_t = _params[self.KEY_RT]
         r_s = _params[self.KEY_RS]
@@ -53,13 +53,30 @@ class TNFWFromParams(TNFWSubhalo):
         return density_nfw * (tau**2 / (tau**2 + x**2))**n
 
 
+    @property
+    def nfw_params(self):
+        """
+        See documentation in base class (Halos/halo_base.py)
+        """
+        return self._params_input[self.KEY_RHO_S], self._params_input[self.KEY_RS], self._params_input[self.KEY_RV]
+
+    @property
+    def params_physical(self):
+        """
+        See documentation in base class (Halos/halo_base.py)
+        """
+        if not hasattr(self, '_params_physical'):
+            self._params_physical = dict(self._params_input)
+            self._params_physical[self.KEY_RHO_S] *= self._rescale_norm
+        return self._params_physical
+
     @property
     def profile_args(self):
         """
         See documentation in base class (Halos/halo_base.py)
         """
         if not hasattr(self, '_profile_args'):
-            truncation_radius_kpc = self.params_physical[self.KEY_RT]
+            truncation_radius_kpc = self._params_input[self.KEY_RT]
             self._profile_args = (self.c, truncation_radius_kpc)
         return self._profile_args
 
@@ -73,9 +90,9 @@ class TNFWFromParams(TNFWSubhalo):
 
         if not hasattr(self, '_kwargs_lenstronomy'):
 
-            r_t = self.params_physical[self.KEY_RT]
-            r_s = self.params_physical[self.KEY_RS]
-            rho_s = self.params_physical[self.KEY_RHO_S]
+            r_t = self._params_input[self.KEY_RT]
+            r_s = self._params_input[self.KEY_RS]
+            rho_s = self._params_input[self.KEY_RHO_S]
 
             Rs_angle, theta_Rs = self.lens_cosmo.nfw_physical2angle_fromNFWparams(rho_s *1 / KPC_TO_MPC**3,r_s * KPC_TO_MPC,self.z)
 
-- 
2.43.0


From ef1b705b4af7dccb930cfa2d37e79937f093b040 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:48:48 +0000
Subject: [PATCH 24/65] fix: splashback radii refer to the mean matter density
 at the redshift of the halo

---
 pyHalo/Halos/tidal_truncation.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pyHalo/Halos/tidal_truncation.py b/pyHalo/Halos/tidal_truncation.py
index 3196f6a..bf5aab2 100644
--- a/pyHalo/Halos/tidal_truncation.py
+++ b/pyHalo/Halos/tidal_truncation.py
@@ -39,7 +39,7 @@ class TruncationSplashBack(object):
         h = self._lens_cosmo.cosmo.h
         nu200m = peaks.peakHeight(halo_mass * h, z)
         RspR200m_units_rvir, _ = splashback.splashbackModel('RspR200m', nu200m=nu200m, z=z, rspdef='sp-apr-mn')
-        r200m_mpc = self._lens_cosmo.rN_M(halo_mass * h, z, 200.0) / self._lens_cosmo.cosmo.astropy.Om0 ** (1./3)
+        r200m_mpc = self._lens_cosmo.rN_M(halo_mass * h, z, 200.0) / self._lens_cosmo.cosmo.astropy.Om(z) ** (1./3)
         rt_kpc = RspR200m_units_rvir * r200m_mpc * 1e3
         return rt_kpc
 
-- 
2.43.0


From c2aeeef618ed24b539b1929524675f0a2e1126e0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:48:48 +0000
Subject: [PATCH 25/65] fix: TruncationGalacticusApproxCDM.truncation_radius
 raised AttributeError

---
 pyHalo/Halos/tidal_truncation.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pyHalo/Halos/tidal_truncation.py b/pyHalo/Halos/tidal_truncation.py
index bf5aab2..bb3c893 100644
--- a/pyHalo/Halos/tidal_truncation.py
+++ b/pyHalo/Halos/tidal_truncation.py
@@ -571,7 +571,7 @@ class TruncationGalacticusApproxCDM(object):
         :param z_eval:
         :return:
         """
-        m_bound = self.calculate_mbound(halo_mass)
+        m_bound = halo_mass * self.compute_f_bound
         _, rs, r200 = self._lens_cosmo.NFW_params_physical(halo_mass,
                                                         infall_concentration,
                                                         z_eval,
-- 
2.43.0


From cd4f47b9aaa711a3eedd0492c7f8a629e7ac05a7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:48:48 +0000
Subject: [PATCH 26/65] fix: the Keeley24 tidal model could assign a bound mass
 larger than the infall mass

---
 pyHalo/Halos/galacticus_truncation/interp_mass_loss.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pyHalo/Halos/galacticus_truncation/interp_mass_loss.py b/pyHalo/Halos/galacticus_truncation/interp_mass_loss.py
index a7f05b9..630be44 100644
--- a/pyHalo/Halos/galacticus_truncation/interp_mass_loss.py
+++ b/pyHalo/Halos/galacticus_truncation/interp_mass_loss.py
@@ -36,7 +36,7 @@ class InterpGalacticusKeeley24(object):
         scatter_dex = self.evaluate_scatter_dex(log10_concentration_infall, time_since_infall, host_concentration)
         scatter_dex = max(scatter_dex, 0.001)
         output = np.random.normal(mean, scatter_dex)
-        return output
+        return min(output, 0.0)
 
     def evaluate_mean_mass_loss(self, log10_concentration_infall, time_since_infall, host_concentration):
         """
-- 
2.43.0


From 42d3b126fd001716abd0e2db6310ef5702ce11d9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:49:17 +0000
Subject: [PATCH 27/65] fix: subhalo profiles are built with the bound mass
 assigned to the halo for all Galacticus based truncation models

---
 pyHalo/Halos/HaloModels/TNFW.py  |  5 ++++-
 pyHalo/Halos/tidal_truncation.py | 25 ++++++++++++++++++++++---
 2 files changed, 26 insertions(+), 4 deletions(-)

diff --git a/pyHalo/Halos/HaloModels/TNFW.py b/pyHalo/Halos/HaloModels/TNFW.py
index 05c604e..be86874 100644
--- a/pyHalo/Halos/HaloModels/TNFW.py
+++ b/pyHalo/Halos/HaloModels/TNFW.py
@@ -340,7 +340,10 @@ class TNFWSubhalo(TNFWFieldHalo):
         See documentation in base class (Halos/halo_base.py)
         """
         if not hasattr(self, '_profile_args'):
-            if self._truncation_class.name == 'TruncationGalacticus':
+            if self._truncation_class.name in ['TruncationGalacticus',
+                                               'TruncationGalacticusZinfall',
+                                               'TruncationGalacticusKeeley24',
+                                               'TruncationGalacticusApproxCDM']:
                 mbound = self.bound_mass_galacticus_definition
                 truncation_radius_kpc = self._truncation_class.truncation_radius_from_bound_mass(self, mbound)
             else:
diff --git a/pyHalo/Halos/tidal_truncation.py b/pyHalo/Halos/tidal_truncation.py
index bb3c893..1f48982 100644
--- a/pyHalo/Halos/tidal_truncation.py
+++ b/pyHalo/Halos/tidal_truncation.py
@@ -255,9 +255,28 @@ class TruncationGalacticusKeeley24(object):
         :param z_eval:
         :return:
         """
-        log10c = np.log10(infall_concentration)
-        log10mbound_over_minfall = self._mass_loss_interp(log10c, time_since_infall, chost)
-        point = self._make_params_in_bounds_tau_evaluate((log10c, log10mbound_over_minfall))
+        log10mbound_over_minfall = self._mass_loss_interp(np.log10(infall_concentration), time_since_infall, chost)
+        return self._truncation_radius(halo_mass, infall_concentration, log10mbound_over_minfall, z_eval)
+
+    def truncation_radius_from_bound_mass(self, halo, m_bound):
+        """
+        This method computes the truncation radius given the bound mass of a halo
+        :param halo: an instance of a Halo class
+        :param m_bound: the bound mass in solar masses
+        :return: the truncation radius in physical kpc
+        """
+        return self._truncation_radius(halo.mass, halo.c, np.log10(m_bound / halo.mass), halo.z_eval)
+
+    def _truncation_radius(self, halo_mass, infall_concentration, log10mbound_over_minfall, z_eval):
+        """
+
+        :param halo_mass: infall mass
+        :param infall_concentration: concentration at infall
+        :param log10mbound_over_minfall: log10 of the bound mass divided by the infall mass
+        :param z_eval: redshift at which the NFW parameters are evaluated
+        :return: the truncation radius in physical kpc
+        """
+        point = self._make_params_in_bounds_tau_evaluate((np.log10(infall_concentration), log10mbound_over_minfall))
         log10tau = float(self._tau_mf_interpolation(point))
         tau = 10 ** log10tau
         _, rs, _ = self._lens_cosmo.NFW_params_physical(halo_mass,
-- 
2.43.0


From 1a964753202220dd8be62084a957baaf5a0aac3d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:22:09 +0000
Subject: [PATCH 28/65] fix: precompute_realization only batches the halo
 classes and truncation model it knows

---
 pyHalo/Halos/batch_halo_util.py | 16 ++++++++++------
 1 file changed, 10 insertions(+), 6 deletions(-)

diff --git a/pyHalo/Halos/batch_halo_util.py b/pyHalo/Halos/batch_halo_util.py
index 3462efe..c684803 100644
--- a/pyHalo/Halos/batch_halo_util.py
+++ b/pyHalo/Halos/batch_halo_util.py
@@ -616,6 +616,8 @@ def precompute_realization(realization, kwargs_halo_model=None):
         the realization (used to locate the truncation classes); defaults to
         realization.kwargs_halo_model
     """
+    from pyHalo.Halos.HaloModels.TNFW import TNFWSubhalo, TNFWFieldHalo
+    from pyHalo.Halos.HaloModels.NFW_core_trunc import TNFWCHaloEvolving
     if kwargs_halo_model is None:
         kwargs_halo_model = realization.kwargs_halo_model
 
@@ -625,17 +627,19 @@ def precompute_realization(realization, kwargs_halo_model=None):
         key = 'truncation_model_subhalos' if is_subhalo else 'truncation_model_field_halos'
         return kwargs_halo_model.get(key, None)
 
-    tnfw_subs = [h for h in realization.halos if h.mdef == 'TNFW' and h.is_subhalo]
-    tnfw_field = [h for h in realization.halos if h.mdef == 'TNFW' and not h.is_subhalo]
-    tnfwc = [h for h in realization.halos if h.mdef == 'TNFWC'
-             and 'sidm_timescale' in getattr(h, '_args', {})]
+    t_sub = _truncation_for(True)
+    t_field = _truncation_for(False)
+    # other halo classes can share these mass definitions, and halos from another model (e.g. after joining realizations)
+    # have their own truncation class; all of these are left to the per-halo evaluation
+    tnfw_subs = [h for h in realization.halos if type(h) is TNFWSubhalo and h._truncation_class is t_sub]
+    tnfw_field = [h for h in realization.halos if type(h) is TNFWFieldHalo and not h.is_subhalo
+                  and h._truncation_class is t_field]
+    tnfwc = [h for h in realization.halos if type(h) is TNFWCHaloEvolving]
     nfw = [h for h in realization.halos if h.mdef == 'NFW']
 
-    t_sub = _truncation_for(True)
     if len(tnfw_subs) > 0 and t_sub is not None and \
             getattr(t_sub, 'name', None) in ('TruncationGalacticus', 'TruncationGalacticusZinfall'):
         precompute_tnfw_subhalos(tnfw_subs, t_sub)
-    t_field = _truncation_for(False)
     if len(tnfw_field) > 0 and t_field is not None:
         precompute_tnfw_field_halos(tnfw_field, t_field)
     if len(tnfwc) > 0:
-- 
2.43.0


From 2122bd7fc48eb397bf0c4e23c4c6a95f9842de50 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:23:44 +0000
Subject: [PATCH 29/65] fix: batch SIDM profiles use the same critical density
 as the per-halo path

---
 pyHalo/Halos/batch_halo_util.py | 9 +++------
 1 file changed, 3 insertions(+), 6 deletions(-)

diff --git a/pyHalo/Halos/batch_halo_util.py b/pyHalo/Halos/batch_halo_util.py
index c684803..310972d 100644
--- a/pyHalo/Halos/batch_halo_util.py
+++ b/pyHalo/Halos/batch_halo_util.py
@@ -570,12 +570,9 @@ def precompute_sidm_evolving_profiles(halos, n_r=250):
 
     # mass-conservation normalization: one broadcasted (N, n_r) integral
     kpc_per_arcsec = np.atleast_1d(np.asarray(cosmo.kpc_proper_per_asec(z)))
-    # sigma_crit: vectorized over lens redshift (astropy accepts array z1)
-    astropy = cosmo.astropy
-    d_ds = astropy.angular_diameter_distance_z1z2(z, lens_cosmo.z_source).value
-    d_d = astropy.angular_diameter_distance(z).value
-    d_s = astropy.angular_diameter_distance(lens_cosmo.z_source).value
-    sigma_crit_mpc = cosmo.c ** 2 / (4 * np.pi * cosmo.G) * d_s / (d_ds * d_d)
+    # sigma_crit, through the same distances as the per-halo path
+    z_unique, z_index = np.unique(z, return_inverse=True)
+    sigma_crit_mpc = np.array([lens_cosmo.get_sigma_crit_lensing(zi, lens_cosmo.z_source) for zi in z_unique])[z_index]
     factor = sigma_crit_mpc * 1e-6 / kpc_per_arcsec
 
     x = np.array([np.logspace(-4, np.log10(ci), n_r) for ci in c])  # (N, n_r)
-- 
2.43.0


From a9b2529184a70a9563a19a55e8103e1a79785e64 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:27:02 +0000
Subject: [PATCH 30/65] fix: batch mass loss clips the host concentration like
 the per-halo mass loss

---
 pyHalo/Halos/batch_halo_util.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pyHalo/Halos/batch_halo_util.py b/pyHalo/Halos/batch_halo_util.py
index 310972d..831490a 100644
--- a/pyHalo/Halos/batch_halo_util.py
+++ b/pyHalo/Halos/batch_halo_util.py
@@ -270,7 +270,7 @@ def galacticus_mass_loss_vectorized(mass_loss_interp, log10c, t_or_dz, chost):
     if cls == 'InterpGalacticus':
         log10c = np.clip(log10c, np.log10(2.), np.log10(384.))
         t_or_dz = np.clip(t_or_dz, 0.0, 8.1)
-        chost = min(max(chost, 4.0), 9.0)
+        chost = min(max(chost, 4.0), 8.0)
     elif cls == 'InterpGalacticusZinfall':
         log10c = np.clip(log10c, np.log10(2.), np.log10(384.))
         t_or_dz = np.clip(t_or_dz, 0.001, 9.5)
-- 
2.43.0


From 50859ae930163624c36ad8f44527e64e96c42946 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:43:58 +0000
Subject: [PATCH 31/65] fix: WDM concentration models do not write into the
 (shared default) kwargs_cdm

---
 pyHalo/Halos/concentration.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/pyHalo/Halos/concentration.py b/pyHalo/Halos/concentration.py
index 8147402..144dbd1 100644
--- a/pyHalo/Halos/concentration.py
+++ b/pyHalo/Halos/concentration.py
@@ -363,6 +363,7 @@ class ConcentrationWDMPolynomial(_ConcentrationTurnover):
         :param scatter_dex: scatter in concentration in dex
         :param kwargs_cdm: keyword arguments for the CDM concentration class
         """
+        kwargs_cdm = dict(kwargs_cdm)
         if 'scatter' not in kwargs_cdm.keys():
             kwargs_cdm['scatter'] = scatter
         if 'scatter_dex' not in kwargs_cdm.keys():
@@ -407,6 +408,7 @@ class ConcentrationWDMHyperbolic(_ConcentrationTurnover):
         :param concentration_cdm_class:
         :param kwargs_cdm:
         """
+        kwargs_cdm = dict(kwargs_cdm)
         if 'scatter' not in kwargs_cdm.keys():
             kwargs_cdm['scatter'] = scatter
         if 'scatter_dex' not in kwargs_cdm.keys():
-- 
2.43.0


From c1803eec37472ca1f4dd977f536e2733d11903c8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:46:03 +0000
Subject: [PATCH 32/65] fix: concentrations of integer masses (numpy integers
 and integer arrays)

---
 pyHalo/Halos/concentration.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/pyHalo/Halos/concentration.py b/pyHalo/Halos/concentration.py
index 144dbd1..b2f0db5 100644
--- a/pyHalo/Halos/concentration.py
+++ b/pyHalo/Halos/concentration.py
@@ -41,8 +41,8 @@ class _ConcentrationCDM(object):
         :param force_no_scatter: bool; if True, will return the median concentration
         :return:
         """
-        if isinstance(m, float) or isinstance(m, int):
-            c = float(self._evaluate_concentration(m, z))
+        if numpy.ndim(m) == 0:
+            c = float(self._evaluate_concentration(float(m), z))
         else:
             c = numpy.array([self._evaluate_concentration(mi, z) for mi in m])
         if self._scatter:
@@ -110,7 +110,7 @@ class _ConcentrationCDM(object):
         :param z: redshift (float, or array with the same length as M)
         :return: halo concentration
         """
-        scalar_input = isinstance(M, float) or isinstance(M, int)
+        scalar_input = numpy.ndim(M) == 0
         if scalar_input and self._table is not None:
             # fast pure-scalar bilinear evaluation (the halo classes evaluate
             # one halo at a time, so this is the hot path)
-- 
2.43.0


From 53e865275eef95f387c4d4e618d73d5eafc4289b Mon Sep 17 00:00:00 2001
From: v <v@v>
Date: Thu, 19 Nov 2026 22:16:16 +0000
Subject: [PATCH 33/65] fix: halos collapsed to GNFW or SPL_CORE keep their
 infall redshift, concentration and bound mass, and the input halo is not
 modified

---
 pyHalo/realization_extensions.py | 12 ++++++++----
 1 file changed, 8 insertions(+), 4 deletions(-)

diff --git a/pyHalo/realization_extensions.py b/pyHalo/realization_extensions.py
index b6e57d9..bd1b886 100644
--- a/pyHalo/realization_extensions.py
+++ b/pyHalo/realization_extensions.py
@@ -890,8 +890,9 @@ class RealizationExtensions(object):
 
                 else:
                     truncation_class = halo._truncation_class
-                    concentration_class = halo._concentration_class
-                    halo.update_args(kwargs_halo)
+                    # the collapsed halo has the same concentration (including scatter) as the halo it is created from
+                    concentration_class = ConcentrationConstant(None, halo.c)
+                    args = dict(halo.args_profile, **kwargs_halo)
                     if is_subhalo:
                         new_halo = subhalo_model(halo.mass,
                                                halo.x,
@@ -900,10 +901,13 @@ class RealizationExtensions(object):
                                                halo.z,
                                                is_subhalo,
                                                halo.lens_cosmo,
-                                               halo.args_profile,
+                                               args,
                                                truncation_class,
                                                concentration_class,
                                                halo.unique_tag)
+                        new_halo.set_infall_redshift(halo.z_infall)
+                        if halo.mdef == 'TNFW':
+                            new_halo.set_bound_mass(halo.bound_mass)
                     else:
                         new_halo = fieldhalo_model(halo.mass,
                                                  halo.x,
@@ -912,7 +916,7 @@ class RealizationExtensions(object):
                                                  halo.z,
                                                  is_subhalo,
                                                  halo.lens_cosmo,
-                                                 halo.args_profile,
+                                                 args,
                                                  truncation_class,
                                                  concentration_class,
                                                  halo.unique_tag)
-- 
2.43.0


From 6ac6172ad65591920fcd0adc2207440d0581c466 Mon Sep 17 00:00:00 2001
From: v <v@v>
Date: Thu, 19 Nov 2026 22:16:16 +0000
Subject: [PATCH 34/65] fix: add_cored_halos with TNFWC profiles only replaces
 the halos in halo_index_list

---
 pyHalo/realization_extensions.py | 26 +++++++++++++-------------
 1 file changed, 13 insertions(+), 13 deletions(-)

diff --git a/pyHalo/realization_extensions.py b/pyHalo/realization_extensions.py
index bd1b886..12f659b 100644
--- a/pyHalo/realization_extensions.py
+++ b/pyHalo/realization_extensions.py
@@ -278,20 +278,20 @@ class RealizationExtensions(object):
         truncation_class = None
         args = {'beta': beta}
         for i, halo in enumerate(self._realization.halos):
-            concentration_class = ConcentrationConstant(self._realization.lens_cosmo.cosmo,
-                                                        halo.c)
+            if i not in halo_index_list:
+                new_halo_list.append(halo)
+                continue
             if core_density_profile == 'CNFW':
-                if i in halo_index_list:
-                    r3d = None
-                    new_halo = CoreNFWHalo(halo.mass, halo.x, halo.y, r3d, halo.z,
-                                           halo.is_subhalo, self._realization.lens_cosmo, args,
-                                           truncation_class, concentration_class, halo.unique_tag)
-                    if halo.is_subhalo:
-                        new_halo.set_bound_mass(halo.bound_mass)
-                        new_halo.set_infall_redshift(halo.z_infall)
-                    new_halo_list.append(new_halo)
-                else:
-                    new_halo_list.append(halo)
+                concentration_class = ConcentrationConstant(self._realization.lens_cosmo.cosmo,
+                                                            halo.c)
+                r3d = None
+                new_halo = CoreNFWHalo(halo.mass, halo.x, halo.y, r3d, halo.z,
+                                       halo.is_subhalo, self._realization.lens_cosmo, args,
+                                       truncation_class, concentration_class, halo.unique_tag)
+                if halo.is_subhalo:
+                    new_halo.set_bound_mass(halo.bound_mass)
+                    new_halo.set_infall_redshift(halo.z_infall)
+                new_halo_list.append(new_halo)
             else:
                 new_halo = self.toSIDM_single_halo(halo,
                                                    None,
-- 
2.43.0


From 775f526afd1a1a812efb0e3d358c16c3d47650f0 Mon Sep 17 00:00:00 2001
From: v <v@v>
Date: Thu, 19 Nov 2026 22:16:16 +0000
Subject: [PATCH 35/65] fix: toSIDM_from_cross_section keeps objects that have
 no NFW parameters

---
 pyHalo/realization_extensions.py | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/pyHalo/realization_extensions.py b/pyHalo/realization_extensions.py
index 12f659b..9d430e2 100644
--- a/pyHalo/realization_extensions.py
+++ b/pyHalo/realization_extensions.py
@@ -733,12 +733,12 @@ class RealizationExtensions(object):
                     break
             else:
                 raise Exception('halo mass ' + str(np.log10(halo.mass)) + ' not inside the minimum/maximum mass ranges')
-            rhos, rs, _ = halo.nfw_params
-            if sidm_timescale_function is not None:
-                t_c = sidm_timescale_function(rhos, rs, sigma_eff)
-            else:
-                t_c = self._realization.lens_cosmo.sidm_collapse_timescale(rhos, rs, sigma_eff)
             if halo.mdef in ['TNFW', 'NFW']:
+                rhos, rs, _ = halo.nfw_params
+                if sidm_timescale_function is not None:
+                    t_c = sidm_timescale_function(rhos, rs, sigma_eff)
+                else:
+                    t_c = self._realization.lens_cosmo.sidm_collapse_timescale(rhos, rs, sigma_eff)
                 subhalo_evolution_scaling = 10**log10_subhalo_time_scaling
                 new_halo = self.toSIDM_single_halo(halo,
                                                t_c=t_c,
-- 
2.43.0


From 37b2e0b17bb0d2c71e9d7a30dfbc7e9a594d8960 Mon Sep 17 00:00:00 2001
From: v <v@v>
Date: Thu, 19 Nov 2026 22:16:16 +0000
Subject: [PATCH 36/65] fix: generalized NFW and pseudo-Jaffe halos have a
 single draw of the concentration

---
 pyHalo/Halos/HaloModels/PsuedoJaffe.py     | 4 ++--
 pyHalo/Halos/HaloModels/generalized_nfw.py | 2 +-
 2 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/pyHalo/Halos/HaloModels/PsuedoJaffe.py b/pyHalo/Halos/HaloModels/PsuedoJaffe.py
index d22bece..eff409f 100644
--- a/pyHalo/Halos/HaloModels/PsuedoJaffe.py
+++ b/pyHalo/Halos/HaloModels/PsuedoJaffe.py
@@ -111,7 +111,7 @@ class PJaffeSubhalo(Halo):
         """
         if not hasattr(self, '_profile_args'):
 
-            concentration = self._concentration_class.nfw_concentration(self.mass, self.z_eval)
+            concentration = self.c
             self._profile_args = (concentration)
 
         return self._profile_args
@@ -125,7 +125,7 @@ class PJaffeFieldhalo(PJaffeSubhalo):
 
         if not hasattr(self, '_profile_args'):
 
-            concentration = self._concentration_class.nfw_concentration(self.mass, self.z)
+            concentration = self.c
             self._profile_args = (concentration)
 
         return self._profile_args
diff --git a/pyHalo/Halos/HaloModels/generalized_nfw.py b/pyHalo/Halos/HaloModels/generalized_nfw.py
index 0eed4c6..cc04269 100644
--- a/pyHalo/Halos/HaloModels/generalized_nfw.py
+++ b/pyHalo/Halos/HaloModels/generalized_nfw.py
@@ -84,7 +84,7 @@ class GeneralNFWSubhalo(Halo):
         """
         if not hasattr(self, '_profile_args'):
 
-            concentration = self._concentration_class.nfw_concentration(self.mass, self.z_eval)
+            concentration = self.c
             gamma_inner = self._args['gamma_inner']
             gamma_outer = self._args['gamma_outer']
             self._profile_args = (concentration, gamma_inner, gamma_outer)
-- 
2.43.0


From c6580eec78d1722ced2157c8e338d85e01294c70 Mon Sep 17 00:00:00 2001
From: v <v@v>
Date: Thu, 19 Nov 2026 22:27:25 +0000
Subject: [PATCH 37/65] fix: the mass in an aperture counts the pixels inside
 the aperture

---
 pyHalo/Rendering/correlated_structure.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pyHalo/Rendering/correlated_structure.py b/pyHalo/Rendering/correlated_structure.py
index 858adef..4cb2025 100644
--- a/pyHalo/Rendering/correlated_structure.py
+++ b/pyHalo/Rendering/correlated_structure.py
@@ -172,7 +172,7 @@ class CorrelatedStructure(RenderingClassBase):
         pdf[inds_zero] = 0.
         inds_nan = np.where(np.isnan(pdf))
         pdf[inds_nan] = 0.
-        npixels = len(inds_zero)
+        npixels = len(rr) - len(inds_zero) # the number of pixels inside the aperture
         effective_area = np.pi * rendering_radius ** 2 / npixels
         mass_in_area = self._mass_in_area(pdf, z, effective_area)
         return pdf.reshape(shape0), mass_in_area, halo_indexes
-- 
2.43.0


From 725b8c196eeb1d476177f3fb8436c29e58f627b9 Mon Sep 17 00:00:00 2001
From: v <v@v>
Date: Thu, 19 Nov 2026 22:27:44 +0000
Subject: [PATCH 38/65] fix: correlated structure is placed where it was drawn,
 and halos are rescaled whatever the last plane and image contain

---
 pyHalo/Rendering/correlated_structure.py | 10 ++++++----
 pyHalo/realization_extensions.py         |  4 +++-
 2 files changed, 9 insertions(+), 5 deletions(-)

diff --git a/pyHalo/Rendering/correlated_structure.py b/pyHalo/Rendering/correlated_structure.py
index 4cb2025..ce92c64 100644
--- a/pyHalo/Rendering/correlated_structure.py
+++ b/pyHalo/Rendering/correlated_structure.py
@@ -58,15 +58,17 @@ class CorrelatedStructure(RenderingClassBase):
             delta_z.append(plane_redshifts[i + 1] - plane_redshifts[i])
         delta_z.append(self._realization.lens_cosmo.z_source - plane_redshifts[-1])
         rescale_indexes = []
+        rescale_factor = 1.
         for z, dz in zip(plane_redshifts, delta_z):
             d = self._lens_cosmo.cosmo.D_C_transverse(z)
             x_angle = x_center_interp(d)
             y_angle = y_center_interp(d)
-            _m, _x, _y, halo_inds, rescale_factor = self.render_at_z(z, x_angle, y_angle,
+            _m, _x, _y, halo_inds, _rescale_factor = self.render_at_z(z, x_angle, y_angle,
                                                 rmax, arcsec_per_pixel)
+            # the factor is the same on every plane that contributes mass
+            rescale_factor = min(rescale_factor, _rescale_factor)
             # find all halos within rmax of coordinate
-            _x, _y = self._halo_x, self._halo_y
-            dr = np.hypot(_x - x_angle, _y - y_angle)
+            dr = np.hypot(self._halo_x - x_angle, self._halo_y - y_angle)
             indexes = list(np.where(np.logical_and(self._halo_redshifts == z, dr < rmax))[0])
             rescale_indexes += list(indexes)
             if len(_m) > 0:
@@ -104,7 +106,7 @@ class CorrelatedStructure(RenderingClassBase):
             y_arcsec = y_kpc / kpc_per_asec
             return m, x_arcsec, y_arcsec, halo_indexes, rescale_factor
         else:
-            return np.array([]), np.array([]), np.array([]), [], 1.
+            return np.array([]), np.array([]), np.array([]), halo_indexes, rescale_factor
 
     def render_masses_at_z(self, mass_in_area):
 
diff --git a/pyHalo/realization_extensions.py b/pyHalo/realization_extensions.py
index 9d430e2..96926aa 100644
--- a/pyHalo/realization_extensions.py
+++ b/pyHalo/realization_extensions.py
@@ -1033,9 +1033,11 @@ class RealizationExtensions(object):
                  self._realization.geometry, self._realization.lens_cosmo, lens_plane_redshifts,
                                                    delta_z_list, self._realization)
         rescale_indicies = []
+        rescale_factor = 1.
         for image_index, (x_image_interp, y_image_interp) in enumerate(zip(x_image_interp_list, y_image_interp_list)):
-            masses, x, y, r3d, redshifts, subhalo_flag, rescale_factor, _rescale_indicies = correlated_structure.render(
+            masses, x, y, r3d, redshifts, subhalo_flag, _rescale_factor, _rescale_indicies = correlated_structure.render(
                 r_max, x_image_interp, y_image_interp, arcsec_per_pixel)
+            rescale_factor = min(rescale_factor, _rescale_factor)
             rescale_indicies += list(_rescale_indicies)
             mdefs = [mass_definition] * len(masses)
             kwargs_halo_model = {'truncation_model': None, 'concentration_model': None, 'kwargs_density_profile': {}}
-- 
2.43.0


From 960ad356f3bb4783d22243d3011affe91f308435 Mon Sep 17 00:00:00 2001
From: v <v@v>
Date: Thu, 19 Nov 2026 22:27:44 +0000
Subject: [PATCH 39/65] fix: clustered primordial black holes follow the
 requested mass function, within the radius of each image

---
 pyHalo/realization_extensions.py | 11 ++++++++---
 1 file changed, 8 insertions(+), 3 deletions(-)

diff --git a/pyHalo/realization_extensions.py b/pyHalo/realization_extensions.py
index 96926aa..b065f70 100644
--- a/pyHalo/realization_extensions.py
+++ b/pyHalo/realization_extensions.py
@@ -1024,6 +1024,8 @@ class RealizationExtensions(object):
         Adds structure along the line of sight with a spatial distribution that tracks the dark matter density at each
         lens plane
 
+        :param r_max: the radius of the rendering region around each image in arcsec; either one number, or one for each
+        image
         """
 
         realization_copy = deepcopy(self._realization)
@@ -1034,9 +1036,10 @@ class RealizationExtensions(object):
                                                    delta_z_list, self._realization)
         rescale_indicies = []
         rescale_factor = 1.
+        r_max_list = np.broadcast_to(r_max, len(x_image_interp_list))
         for image_index, (x_image_interp, y_image_interp) in enumerate(zip(x_image_interp_list, y_image_interp_list)):
             masses, x, y, r3d, redshifts, subhalo_flag, _rescale_factor, _rescale_indicies = correlated_structure.render(
-                r_max, x_image_interp, y_image_interp, arcsec_per_pixel)
+                r_max_list[image_index], x_image_interp, y_image_interp, arcsec_per_pixel)
             rescale_factor = min(rescale_factor, _rescale_factor)
             rescale_indicies += list(_rescale_indicies)
             mdefs = [mass_definition] * len(masses)
@@ -1154,20 +1157,22 @@ class RealizationExtensions(object):
             kwargs_pbh_mass_function['mass_fraction'] = mass_fraction_clumpy
             kwargs_pbh_mass_function['logM'] = logM_pbh
             kwargs_pbh_mass_function['mass_function_type'] = mass_function_type
+            mass_function_model = DeltaFunction
         elif mass_function_type == 'GAUSSIAN':
             kwargs_pbh_mass_function['mass_fraction'] = mass_fraction_clumpy
             kwargs_pbh_mass_function['logM'] = logM_pbh
             kwargs_pbh_mass_function['logM_sigma'] = logM_pbh_sigma
             kwargs_pbh_mass_function['mass_function_type'] = mass_function_type
+            mass_function_model = Gaussian
         else:
             raise ValueError('mass_function_type must be either DELTA or GAUSSIAN')
-        realization_with_clustering = self.add_correlated_structure(DeltaFunction,
+        realization_with_clustering = self.add_correlated_structure(mass_function_model,
                                                                          kwargs_pbh_mass_function,
                                                                          mass_definition,
                                                                         x_image_interp_list,
                                                                         y_image_interp_list,
                                                                          arcsec_per_pixel,
-                                                                            r_max,
+                                                                            r_max_arcsec,
                                                                          rescale_normalizations)
         return realization_with_clustering.join(realization_smooth)
 
-- 
2.43.0


From 5fca51d1dfcc48926ac203b50b7906a33a1c7381 Mon Sep 17 00:00:00 2001
From: v <v@v>
Date: Thu, 19 Nov 2026 22:27:44 +0000
Subject: [PATCH 40/65] fix: ULDM fluctuations around images stay with their
 image when another image has none

---
 pyHalo/realization_extensions.py | 1 -
 1 file changed, 1 deletion(-)

diff --git a/pyHalo/realization_extensions.py b/pyHalo/realization_extensions.py
index b065f70..f5a75a8 100644
--- a/pyHalo/realization_extensions.py
+++ b/pyHalo/realization_extensions.py
@@ -1214,7 +1214,6 @@ def _get_number_flucs(realization, de_Broglie_wavelength, fluctuation_size_scale
         area_aperture = np.pi*r_kpc**2 # aperture area
         n_flucs_expected = n_fluc_scale*area_aperture/fluc_area #number of expected fluctuations per aperture
         n_flucs = np.random.poisson(n_flucs_expected,n_images) #draw number of fluctuations from poisson distribution for each image
-        n_flucs = n_flucs[n_flucs!=0] #get rid of aperture if zero fluctuations within it
 
     return n_flucs
 
-- 
2.43.0


From 8adaca115a399a1282a841ee8396e275f7fc5f1e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:39:45 +0000
Subject: [PATCH 41/65] fix: black holes can be added to a realization without
 halos

---
 pyHalo/realization_extensions.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/pyHalo/realization_extensions.py b/pyHalo/realization_extensions.py
index f5a75a8..590b07c 100644
--- a/pyHalo/realization_extensions.py
+++ b/pyHalo/realization_extensions.py
@@ -123,7 +123,8 @@ class RealizationExtensions(object):
         delta_z = []
         for i, zi in enumerate(plane_redshifts[0:-1]):
             delta_z.append(plane_redshifts[i + 1] - plane_redshifts[i])
-        delta_z.append(self._realization.lens_cosmo.z_source - plane_redshifts[-1])
+        if len(plane_redshifts) > 0:
+            delta_z.append(self._realization.lens_cosmo.z_source - plane_redshifts[-1])
 
         for (zi, delta_zi) in zip(plane_redshifts, delta_z):
             kwargs_model_subres = {'m_pivot': 10 ** 8,
@@ -1096,7 +1097,8 @@ class RealizationExtensions(object):
         delta_z = []
         for i, zi in enumerate(plane_redshifts[0:-1]):
             delta_z.append(plane_redshifts[i + 1] - plane_redshifts[i])
-        delta_z.append(self._realization.lens_cosmo.z_source - plane_redshifts[-1])
+        if len(plane_redshifts) > 0:
+            delta_z.append(self._realization.lens_cosmo.z_source - plane_redshifts[-1])
 
         mass_fraction_smooth = (1 - mass_fraction_in_halos) * pbh_mass_fraction
         mass_fraction_clumpy = pbh_mass_fraction * mass_fraction_in_halos
-- 
2.43.0


From 79e005190d3457ba42c88d68c5f14a8e5a62ca23 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:14:59 +0000
Subject: [PATCH 42/65] fix: presets, infall models and rendering classes do
 not write into the caller's (or shared default) dictionaries

---
 pyHalo/Halos/lens_cosmo.py               |  1 +
 pyHalo/PresetModels/cdm.py               | 22 +++++++++++-----------
 pyHalo/PresetModels/wdm.py               | 20 ++++++++++----------
 pyHalo/Rendering/rendering_class_base.py |  1 +
 4 files changed, 23 insertions(+), 21 deletions(-)

diff --git a/pyHalo/Halos/lens_cosmo.py b/pyHalo/Halos/lens_cosmo.py
index 1bed3f1..7336c77 100644
--- a/pyHalo/Halos/lens_cosmo.py
+++ b/pyHalo/Halos/lens_cosmo.py
@@ -88,6 +88,7 @@ class LensCosmo(object):
         :return:
         """
         self._infall_pdf_set = True
+        kwargs_infall_model = dict(kwargs_infall_model)
         if infall_redshift_model in ['DIRECT_INFALL', 'HYBRID_INFALL']:
             if 'm_host' in list(kwargs_infall_model.keys()):
                 kwargs_infall_model['log_m_host'] = numpy.log10(kwargs_infall_model['m_host'])
diff --git a/pyHalo/PresetModels/cdm.py b/pyHalo/PresetModels/cdm.py
index 27d4927..247f4c2 100644
--- a/pyHalo/PresetModels/cdm.py
+++ b/pyHalo/PresetModels/cdm.py
@@ -83,7 +83,7 @@ def CDM(z_lens, z_source, sigma_sub=0.025, log_mlow=6., log_mhigh=10., log10_sig
     geometry = Geometry(pyhalo.cosmology, z_lens, z_source,
                         cone_opening_angle_arcsec, geometry_type)
     if infall_redshift_model in ['HYBRID_INFALL', 'DIRECT_INFALL_CLUSTER']:
-        kwargs_infall_model['log_m_host'] = log_m_host
+        kwargs_infall_model = dict(kwargs_infall_model, log_m_host=log_m_host)
     pyhalo.lens_cosmo.setup_infall_model(infall_redshift_model, kwargs_infall_model)
     # NOW WE SET THE MASS FUNCTION CLASSES FOR SUBHALOS AND FIELD HALOS
     # NOTE: MASS FUNCTION CLASSES SHOULD NOT BE INSTANTIATED HERE
@@ -96,8 +96,8 @@ def CDM(z_lens, z_source, sigma_sub=0.025, log_mlow=6., log_mhigh=10., log10_sig
     mdef_subhalos = halo_mass_profile
     mdef_field_halos = halo_mass_profile
 
-    kwargs_concentration_model_subhalos['cosmo'] = pyhalo.astropy_cosmo
-    kwargs_concentration_model_fieldhalos['cosmo'] = pyhalo.astropy_cosmo
+    kwargs_concentration_model_subhalos = dict(kwargs_concentration_model_subhalos, cosmo=pyhalo.astropy_cosmo)
+    kwargs_concentration_model_fieldhalos = dict(kwargs_concentration_model_fieldhalos, cosmo=pyhalo.astropy_cosmo)
 
     # SET THE CONCENTRATION-MASS RELATION FOR SUBHALOS AND FIELD HALOS
     model_subhalos, kwargs_mc_subs = preset_concentration_models(concentration_model_subhalos,
@@ -115,8 +115,8 @@ def CDM(z_lens, z_source, sigma_sub=0.025, log_mlow=6., log_mhigh=10., log10_sig
         c_host = concentration_model_fieldhalos.nfw_concentration(10 ** log_m_host, z_lens)
 
     # SET THE TRUNCATION RADIUS FOR SUBHALOS AND FIELD HALOS
-    kwargs_truncation_model_subhalos['lens_cosmo'] = pyhalo.lens_cosmo
-    kwargs_truncation_model_fieldhalos['lens_cosmo'] = pyhalo.lens_cosmo
+    kwargs_truncation_model_subhalos = dict(kwargs_truncation_model_subhalos, lens_cosmo=pyhalo.lens_cosmo)
+    kwargs_truncation_model_fieldhalos = dict(kwargs_truncation_model_fieldhalos, lens_cosmo=pyhalo.lens_cosmo)
 
     model_subhalos, kwargs_trunc_subs = truncation_models(truncation_model_subhalos)
     kwargs_trunc_subs.update(kwargs_truncation_model_subhalos)
@@ -245,14 +245,14 @@ def CDMCorrelatedStructure(z_lens, z_source, log_mlow=6., log_mhigh=10.,
     mdef_subhalos = 'TNFW'
     mdef_field_halos = 'TNFW'
 
-    kwargs_concentration_model['cosmo'] = pyhalo.astropy_cosmo
+    kwargs_concentration_model = dict(kwargs_concentration_model, cosmo=pyhalo.astropy_cosmo)
 
     # SET THE CONCENTRATION-MASS RELATION MODEL
     model, kwargs_mc = preset_concentration_models(concentration_model, kwargs_concentration_model)
     concentration_model = model(**kwargs_mc)
 
     # SET THE TRUNCATION RADIUS MODEL
-    kwargs_truncation_model['lens_cosmo'] = pyhalo.lens_cosmo
+    kwargs_truncation_model = dict(kwargs_truncation_model, lens_cosmo=pyhalo.lens_cosmo)
     model, kwargs_trunc = truncation_models(truncation_model)
     kwargs_trunc.update(kwargs_truncation_model)
     truncation_model = model(**kwargs_trunc)
@@ -358,7 +358,7 @@ def CDMBinned(z_lens, z_source,
     geometry = Geometry(pyhalo.cosmology, z_lens, z_source,
                         cone_opening_angle_arcsec, geometry_type)
     if infall_redshift_model in ['HYBRID_INFALL', 'DIRECT_INFALL_CLUSTER']:
-        kwargs_infall_model['log_m_host'] = log_m_host
+        kwargs_infall_model = dict(kwargs_infall_model, log_m_host=log_m_host)
     pyhalo.lens_cosmo.setup_infall_model(infall_redshift_model, kwargs_infall_model)
     # NOW WE SET THE MASS FUNCTION CLASSES FOR SUBHALOS AND FIELD HALOS
     # NOTE: MASS FUNCTION CLASSES SHOULD NOT BE INSTANTIATED HERE
@@ -372,7 +372,7 @@ def CDMBinned(z_lens, z_source,
     mdef_field_halos = halo_mass_profile
 
     kwargs_concentration_model = {}
-    kwargs_concentration_model['cosmo'] = pyhalo.astropy_cosmo
+    kwargs_concentration_model = dict(kwargs_concentration_model, cosmo=pyhalo.astropy_cosmo)
     # SET THE CONCENTRATION-MASS RELATION FOR SUBHALOS AND FIELD HALOS
     kwargs_concentration_model['normalization_list'] = [10**log10_mc_low, 10**log10_mc_high]
     kwargs_concentration_model['beta_list'] = [beta,
@@ -394,8 +394,8 @@ def CDMBinned(z_lens, z_source,
     concentration_model_fieldhalos = model_fieldhalos(**kwargs_mc_field)
 
     # SET THE TRUNCATION RADIUS FOR SUBHALOS AND FIELD HALOS
-    kwargs_truncation_model_subhalos['lens_cosmo'] = pyhalo.lens_cosmo
-    kwargs_truncation_model_fieldhalos['lens_cosmo'] = pyhalo.lens_cosmo
+    kwargs_truncation_model_subhalos = dict(kwargs_truncation_model_subhalos, lens_cosmo=pyhalo.lens_cosmo)
+    kwargs_truncation_model_fieldhalos = dict(kwargs_truncation_model_fieldhalos, lens_cosmo=pyhalo.lens_cosmo)
 
     model_subhalos, kwargs_trunc_subs = truncation_models(truncation_model_subhalos)
     kwargs_trunc_subs.update(kwargs_truncation_model_subhalos)
diff --git a/pyHalo/PresetModels/wdm.py b/pyHalo/PresetModels/wdm.py
index ac55575..058d05f 100644
--- a/pyHalo/PresetModels/wdm.py
+++ b/pyHalo/PresetModels/wdm.py
@@ -91,7 +91,7 @@ def WDM(z_lens, z_source, log_mc, sigma_sub=0.025, log_mlow=6., log_mhigh=10.,
     geometry = Geometry(pyhalo.cosmology, z_lens, z_source,
                         cone_opening_angle_arcsec, geometry_type)
     if infall_redshift_model in ['HYBRID_INFALL', 'DIRECT_INFALL_CLUSTER']:
-        kwargs_infall_model['log_m_host'] = log_m_host
+        kwargs_infall_model = dict(kwargs_infall_model, log_m_host=log_m_host)
     pyhalo.lens_cosmo.setup_infall_model(infall_redshift_model, kwargs_infall_model)
 
     # SET THE MASS FUNCTION MODELS FOR SUBHALOS AND FIELD HALOS
@@ -105,10 +105,8 @@ def WDM(z_lens, z_source, log_mc, sigma_sub=0.025, log_mlow=6., log_mhigh=10.,
     kwargs_mass_function_fieldhalos['log_mc'] = log_mc
 
     # SET THE CONCENTRATION-MASS RELATION FOR SUBHALOS AND FIELD HALOS
-    kwargs_concentration_model_subhalos['cosmo'] = pyhalo.astropy_cosmo
-    kwargs_concentration_model_subhalos['log_mc'] = log_mc
-    kwargs_concentration_model_fieldhalos['cosmo'] = pyhalo.astropy_cosmo
-    kwargs_concentration_model_fieldhalos['log_mc'] = log_mc
+    kwargs_concentration_model_subhalos = dict(kwargs_concentration_model_subhalos, cosmo=pyhalo.astropy_cosmo, log_mc=log_mc)
+    kwargs_concentration_model_fieldhalos = dict(kwargs_concentration_model_fieldhalos, cosmo=pyhalo.astropy_cosmo, log_mc=log_mc)
 
     model_subhalos, kwargs_mc_subs = preset_concentration_models(concentration_model_subhalos,
                                                                  kwargs_concentration_model_subhalos)
@@ -127,8 +125,8 @@ def WDM(z_lens, z_source, log_mc, sigma_sub=0.025, log_mlow=6., log_mhigh=10.,
         c_host = concentration_model_fieldhalos.nfw_concentration(10 ** log_m_host, z_lens)
 
     # SET THE TRUNCATION RADIUS FOR SUBHALOS AND FIELD HALOS
-    kwargs_truncation_model_subhalos['lens_cosmo'] = pyhalo.lens_cosmo
-    kwargs_truncation_model_fieldhalos['lens_cosmo'] = pyhalo.lens_cosmo
+    kwargs_truncation_model_subhalos = dict(kwargs_truncation_model_subhalos, lens_cosmo=pyhalo.lens_cosmo)
+    kwargs_truncation_model_fieldhalos = dict(kwargs_truncation_model_fieldhalos, lens_cosmo=pyhalo.lens_cosmo)
     model_subhalos, kwargs_trunc_subs = truncation_models(truncation_model_subhalos)
     kwargs_trunc_subs.update(kwargs_truncation_model_subhalos)
     if truncation_model_subhalos in ['TRUNCATION_GALACTICUS_KEELEY24',
@@ -266,6 +264,8 @@ def WDM_mixed(z_lens, z_source, log_mc, mixed_DM_frac, sigma_sub=0.025, log_mlow
     """
     params = ['a_wdm', 'b_wdm', 'c_wdm']
     values_keeley_2023 = [0.5, 0.8, -3.0]
+    kwargs_mass_function_subhalos = dict(kwargs_mass_function_subhalos)
+    kwargs_mass_function_fieldhalos = dict(kwargs_mass_function_fieldhalos)
     for i, param in enumerate(params):
         if param not in kwargs_mass_function_subhalos.keys():
             kwargs_mass_function_subhalos[param] = values_keeley_2023[i]
@@ -365,7 +365,7 @@ def WDMGeneral(z_lens, z_source, log_mc, dlogT_dlogk, sigma_sub=0.025, log_mlow=
     geometry = Geometry(pyhalo.cosmology, z_lens, z_source,
                         cone_opening_angle_arcsec, geometry_type)
     if infall_redshift_model in ['HYBRID_INFALL', 'DIRECT_INFALL_CLUSTER']:
-        kwargs_infall_model['log_m_host'] = log_m_host
+        kwargs_infall_model = dict(kwargs_infall_model, log_m_host=log_m_host)
     pyhalo.lens_cosmo.setup_infall_model(infall_redshift_model, kwargs_infall_model)
 
     kwargs_model_dlogT_dlogk = {'dlogT_dlogk': dlogT_dlogk}
@@ -390,8 +390,8 @@ def WDMGeneral(z_lens, z_source, log_mc, dlogT_dlogk, sigma_sub=0.025, log_mlow=
     if c_host is None:
         c_host = concentration_model_CDM.nfw_concentration(10 ** log_m_host, z_lens)
     # SET THE TRUNCATION RADIUS FOR SUBHALOS AND FIELD HALOS
-    kwargs_truncation_model_subhalos['lens_cosmo'] = pyhalo.lens_cosmo
-    kwargs_truncation_model_fieldhalos['lens_cosmo'] = pyhalo.lens_cosmo
+    kwargs_truncation_model_subhalos = dict(kwargs_truncation_model_subhalos, lens_cosmo=pyhalo.lens_cosmo)
+    kwargs_truncation_model_fieldhalos = dict(kwargs_truncation_model_fieldhalos, lens_cosmo=pyhalo.lens_cosmo)
     model_subhalos, kwargs_trunc_subs = truncation_models(truncation_model_subhalos)
     kwargs_trunc_subs.update(kwargs_truncation_model_subhalos)
     if truncation_model_subhalos in ['TRUNCATION_GALACTICUS_KEELEY24',
diff --git a/pyHalo/Rendering/rendering_class_base.py b/pyHalo/Rendering/rendering_class_base.py
index 5a283d9..1b53115 100644
--- a/pyHalo/Rendering/rendering_class_base.py
+++ b/pyHalo/Rendering/rendering_class_base.py
@@ -18,6 +18,7 @@ class RenderingClassBase(object):
         """
         self._mass_function_model = mass_function_model
         self._spatial_distribution_model = spatial_distribution_model
+        kwargs_mass_function = dict(kwargs_mass_function)
         if 'draw_poisson' not in kwargs_mass_function.keys():
             kwargs_mass_function['draw_poisson'] = True
         self._kwargs_mass_function = kwargs_mass_function
-- 
2.43.0


From 9a22c85c0f7f390c8d8fc7e263182c8cac092018 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:25:59 +0000
Subject: [PATCH 43/65] fix: the DMEmulator preset model can be loaded by name

---
 pyHalo/preset_models.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pyHalo/preset_models.py b/pyHalo/preset_models.py
index 3138a40..9d45fd2 100644
--- a/pyHalo/preset_models.py
+++ b/pyHalo/preset_models.py
@@ -34,8 +34,8 @@ def preset_model_from_name(name, custom_function=None):
         from pyHalo.PresetModels.uldm import ULDM
         return ULDM
     elif name == 'DMEmulator':
-        from pyHalo.PresetModels.external import DMFromEmulator
-        return DMFromEmulator
+        from pyHalo.PresetModels.external import DMSubhalosFromEmulator
+        return DMSubhalosFromEmulator
     elif name == 'WDM_mixed':
         from pyHalo.PresetModels.wdm import WDM_mixed
         return WDM_mixed
-- 
2.43.0


From c36cc5235ec6e3e5815a9dfc6b538d5c7e1ad5a6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:25:59 +0000
Subject: [PATCH 44/65] fix: delta_power_law_index of the CDM preset tilts the
 subhalo mass function too, as documented

---
 pyHalo/PresetModels/cdm.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pyHalo/PresetModels/cdm.py b/pyHalo/PresetModels/cdm.py
index 247f4c2..be14cfe 100644
--- a/pyHalo/PresetModels/cdm.py
+++ b/pyHalo/PresetModels/cdm.py
@@ -138,7 +138,7 @@ def CDM(z_lens, z_source, sigma_sub=0.025, log_mlow=6., log_mhigh=10., log10_sig
                             'm_pivot': 10 ** 8,
                             'power_law_index': shmf_log_slope,
                             'log_m_host': log_m_host,
-                            'delta_power_law_index': 0.0,
+                            'delta_power_law_index': delta_power_law_index,
                             'host_scaling_factor': host_scaling_factor,
                             'redshift_scaling_factor': redshift_scaling_factor,
                             'draw_poisson': draw_poisson}
-- 
2.43.0


From 9bfd47aae04a12fb38b111f8b1916cc954298b05 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:25:59 +0000
Subject: [PATCH 45/65] fix: JointLOSWithEmulator renders line-of-sight halos
 with the requested opening angle

---
 pyHalo/PresetModels/external.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/pyHalo/PresetModels/external.py b/pyHalo/PresetModels/external.py
index b890f98..7923311 100644
--- a/pyHalo/PresetModels/external.py
+++ b/pyHalo/PresetModels/external.py
@@ -242,6 +242,7 @@ def JointLOSWithEmulator(z_lens,
     emulator_subhalos = DMSubhalosFromEmulator(z_lens, z_source, emulator_data_function, cone_opening_angle_arcsec)
     from pyHalo.preset_models import preset_model_from_name
     preset_model_function = preset_model_from_name(preset_model_name_LOS)
-    los = preset_model_function(z_lens, z_source, **kwargs_preset_model)
+    los = preset_model_function(z_lens, z_source, cone_opening_angle_arcsec=cone_opening_angle_arcsec,
+                                **kwargs_preset_model)
     return emulator_subhalos.join(los)
 
-- 
2.43.0


From 862ff207b6c1682a56b2ec1bd09d8e198c37d4f1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:25:59 +0000
Subject: [PATCH 46/65] fix: the WDM preset keeps the CDM concentration model
 of the requested concentration relation

---
 pyHalo/PresetModels/wdm.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pyHalo/PresetModels/wdm.py b/pyHalo/PresetModels/wdm.py
index 058d05f..ca700c2 100644
--- a/pyHalo/PresetModels/wdm.py
+++ b/pyHalo/PresetModels/wdm.py
@@ -111,7 +111,7 @@ def WDM(z_lens, z_source, log_mc, sigma_sub=0.025, log_mlow=6., log_mhigh=10.,
     model_subhalos, kwargs_mc_subs = preset_concentration_models(concentration_model_subhalos,
                                                                  kwargs_concentration_model_subhalos)
     concentration_model_CDM = preset_concentration_models('DIEMERJOYCE19')[0]
-    kwargs_mc_subs['concentration_cdm_class'] = concentration_model_CDM
+    kwargs_mc_subs.setdefault('concentration_cdm_class', concentration_model_CDM)
     concentration_model_subhalos = model_subhalos(**kwargs_mc_subs)
 
     model_fieldhalos, kwargs_mc_field = preset_concentration_models(concentration_model_fieldhalos,
@@ -119,7 +119,7 @@ def WDM(z_lens, z_source, log_mc, sigma_sub=0.025, log_mlow=6., log_mhigh=10.,
     kwargs_mc_field['cosmo'] = pyhalo.astropy_cosmo
     kwargs_mc_field['log_mc'] = log_mc
     concentration_model_CDM = preset_concentration_models('DIEMERJOYCE19')[0]
-    kwargs_mc_field['concentration_cdm_class'] = concentration_model_CDM
+    kwargs_mc_field.setdefault('concentration_cdm_class', concentration_model_CDM)
     concentration_model_fieldhalos = model_fieldhalos(**kwargs_mc_field)
     if c_host is None:
         c_host = concentration_model_fieldhalos.nfw_concentration(10 ** log_m_host, z_lens)
-- 
2.43.0


From 979de65a53d0ed22fa9395d92962536e180194e4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:15:27 +0000
Subject: [PATCH 47/65] fix: ITSampling returns a single sample with numpy >=
 2.x

---
 pyHalo/utilities.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pyHalo/utilities.py b/pyHalo/utilities.py
index fe9b5b5..e8bc20e 100644
--- a/pyHalo/utilities.py
+++ b/pyHalo/utilities.py
@@ -44,7 +44,7 @@ class ITSampling(object):
         u = np.random.uniform(self._umin, self._umax, int(n_samples))
         samples_out = self._cdf_inverse(u)
         if n_samples == 1:
-            return float(samples_out)
+            return float(samples_out[0])
         else:
             return np.squeeze(samples_out)
 
-- 
2.43.0


From 03415b640f1eabcdce30bbdb89fff9016d7daf9b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:15:27 +0000
Subject: [PATCH 48/65] fix: ULDM field halos use the critical density and
 angular scale at their own redshift

---
 pyHalo/Halos/HaloModels/ULDM.py | 25 ++++++++++++++++++-------
 1 file changed, 18 insertions(+), 7 deletions(-)

diff --git a/pyHalo/Halos/HaloModels/ULDM.py b/pyHalo/Halos/HaloModels/ULDM.py
index ad204ac..18fc270 100644
--- a/pyHalo/Halos/HaloModels/ULDM.py
+++ b/pyHalo/Halos/HaloModels/ULDM.py
@@ -2,7 +2,6 @@ from pyHalo.Halos.halo_base import Halo
 from lenstronomy.LensModel.Profiles.cnfw import CNFW
 from lenstronomy.LensModel.Profiles.uldm import Uldm
 from scipy.optimize import minimize
-import lenstronomy.Util.constants as const
 import numpy as np
 
 class ULDMFieldHalo(Halo):
@@ -83,13 +82,24 @@ class ULDMFieldHalo(Halo):
         """
         r_c = self._core_radius(m_log10, M, plaw) # in kpc
         rho_c = self._central_density(m_log10, r_c) # in M_solar/pc^3
+        theta_c = r_c / self._lens_cosmo.cosmo.kpc_proper_per_asec(self.z) # in arcsec
         r_c *= 10**3 # in pc
-        Sigma_crit = self._lens_cosmo.sigma_crit_lensing * 10**(-12) # in M_solar/parsec^2
-        D_lens = self._lens_cosmo.D_d * 10**6 # in pc
-        theta_c = r_c / D_lens / const.arcsec # in arcsec
+        # the critical surface density and the angular size are those at the redshift of the halo
+        Sigma_crit = self._lens_cosmo.get_sigma_crit_lensing(self.z, self._lens_cosmo.z_source) * 10**(-12) # in M_solar/parsec^2
         kappa_0 = 429 * np.pi * rho_c * r_c / (2048 * np.sqrt(0.091) * Sigma_crit) # lensing units
         return [theta_c, kappa_0]
 
+    @property
+    def _sigma_crit_arcsec(self):
+        """
+        :return: the critical surface density for lensing at the redshift of the halo in M_solar/arcsec^2
+        """
+        if not hasattr(self, '_sigma_crit'):
+            kpc_per_arcsec = self._lens_cosmo.cosmo.kpc_proper_per_asec(self.z)
+            sigma_crit_mpc = self._lens_cosmo.get_sigma_crit_lensing(self.z, self._lens_cosmo.z_source)
+            self._sigma_crit = sigma_crit_mpc * (0.001 * kpc_per_arcsec) ** 2
+        return self._sigma_crit
+
     def _core_radius(self, m_log10, M, plaw):
         """
         :param m_log10: ULDM particle mass in log10 units
@@ -161,10 +171,11 @@ class ULDMFieldHalo(Halo):
         cnfw_params['r_core'] /= beta
         uldm_params['kappa_0'] /= q
 
+        sigma_crit = self._sigma_crit_arcsec
         M_nfw = CNFW().mass_3d_lens(r200, cnfw_params['Rs'],
-                    cnfw_params['alpha_Rs']*self._lens_cosmo.sigmacrit, cnfw_params['r_core'])
+                    cnfw_params['alpha_Rs']*sigma_crit, cnfw_params['r_core'])
         M_uldm = Uldm().mass_3d_lens(r200,
-                    uldm_params['kappa_0']*self._lens_cosmo.sigmacrit, uldm_params['theta_c'])
+                    uldm_params['kappa_0']*sigma_crit, uldm_params['theta_c'])
 
         if (self._args['scale_nfw']):
             # When scale_nfw is True rescale alpha_Rs to improve mass accuracy
@@ -187,7 +198,7 @@ class ULDMFieldHalo(Halo):
         :return: Evaluated mass constraint equation for CNFW component profile
         """
         r_core = beta * rs
-        sigma_crit = self.lens_cosmo.sigmacrit
+        sigma_crit = self._sigma_crit_arcsec
         args_nfw = (r, rs, alpha_rs*sigma_crit, r_core)
         args_uldm = (r, kappa_0*sigma_crit, theta_c)
 
-- 
2.43.0


From 118858d6b2257d261030a164a5a4755c4d201d7e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:15:27 +0000
Subject: [PATCH 49/65] fix: params_physical of emulator halos includes the
 rescaled normalization

---
 pyHalo/Halos/HaloModels/TNFWemulator.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pyHalo/Halos/HaloModels/TNFWemulator.py b/pyHalo/Halos/HaloModels/TNFWemulator.py
index cd8b8e9..c8472c9 100644
--- a/pyHalo/Halos/HaloModels/TNFWemulator.py
+++ b/pyHalo/Halos/HaloModels/TNFWemulator.py
@@ -134,7 +134,7 @@ class TNFWSubhaloEmulator(Halo):
         if not hasattr(self, '_params_physical'):
             [concentration, rt] = self.profile_args
             rhos, rs, r200 = self._lens_cosmo.NFW_params_physical(self.mass, concentration, self.z)
-            self._params_physical = {'rhos': rhos, 'rs': rs, 'r200': r200, 'r_trunc_kpc': rt}
+            self._params_physical = {'rhos': rhos * self._rescale_norm, 'rs': rs, 'r200': r200, 'r_trunc_kpc': rt}
 
         return self._params_physical
 
-- 
2.43.0


From b2bfc24a81be1802d0ec2a0efd1c43b6936550a2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:15:27 +0000
Subject: [PATCH 50/65] fix: Galacticus files with a single tree can be read

---
 pyHalo/Halos/galacticus_util/galacticus_util.py | 10 ++++------
 1 file changed, 4 insertions(+), 6 deletions(-)

diff --git a/pyHalo/Halos/galacticus_util/galacticus_util.py b/pyHalo/Halos/galacticus_util/galacticus_util.py
index 3e2849c..f044154 100644
--- a/pyHalo/Halos/galacticus_util/galacticus_util.py
+++ b/pyHalo/Halos/galacticus_util/galacticus_util.py
@@ -138,13 +138,11 @@ class GalacticusUtil():
         node_tree_index = np.zeros(total_count,dtype=int)
         node_tree_order = np.zeros(total_count,dtype=int)
 
-        for n in range(1,len(tree_start)):
-            start,stop = tree_start[n-1],tree_start[n]
-            node_tree_order[start:stop] = n - 1
-            node_tree_index[start:stop] = tree_index[n - 1] 
+        tree_stop = np.append(tree_start[1:],total_count)
 
-        node_tree_order[stop:] = n
-        node_tree_index[stop:] = tree_index[n]
+        for n,(start,stop) in enumerate(zip(tree_start,tree_stop)):
+            node_tree_order[start:stop] = n
+            node_tree_index[start:stop] = tree_index[n]
 
         node_index = np.arange(total_count)
 
-- 
2.43.0


From c3bc8505b96b0f3ef03cf8ef097dfc364cee3fa5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:15:27 +0000
Subject: [PATCH 51/65] fix: nodedata_select_subhalo indexed the dictionary of
 node data with an array

---
 pyHalo/Halos/galacticus_util/galacticus_filter.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pyHalo/Halos/galacticus_util/galacticus_filter.py b/pyHalo/Halos/galacticus_util/galacticus_filter.py
index cf5d97b..f228dfb 100644
--- a/pyHalo/Halos/galacticus_util/galacticus_filter.py
+++ b/pyHalo/Halos/galacticus_util/galacticus_filter.py
@@ -9,7 +9,7 @@ def nodedata_apply_filter(nodedata,nodefilter,galacticus_util = None):
 def nodedata_select_subhalo(nodedata,id, galacticus_util = None):
     """Selects a subhalo specified by an id, returns a dictionary of the subhalo's properties"""
     gutil = GalacticusUtil() if galacticus_util is None else galacticus_util
-    idfilter = nodedata[nodedata[gutil.PARAM_NODE_ID] == id]
+    idfilter = nodedata[gutil.PARAM_NODE_ID] == id
     return {key:val[idfilter][0] for key,val in nodedata.items()}
 
 def nodedata_filter_tree(nodedata, treeindex,galacticus_util = None):
-- 
2.43.0


From 90952c7d2820e750a86d7d18d8896f2028ac7d4f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:15:27 +0000
Subject: [PATCH 52/65] fix: the halo and virial filters use the
 galacticus_util they are given

---
 pyHalo/Halos/galacticus_util/galacticus_filter.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pyHalo/Halos/galacticus_util/galacticus_filter.py b/pyHalo/Halos/galacticus_util/galacticus_filter.py
index f228dfb..ca8f2d9 100644
--- a/pyHalo/Halos/galacticus_util/galacticus_filter.py
+++ b/pyHalo/Halos/galacticus_util/galacticus_filter.py
@@ -24,7 +24,7 @@ def nodedata_filter_subhalos(nodedata,galacticus_util= None):
 
 def nodedata_filter_halos(nodedata,galacticus_util = None):
     """Returns a filter that excludes all but halo (excludes sub-halos)"""
-    return np.logical_not(nodedata_filter_subhalos(nodedata))
+    return np.logical_not(nodedata_filter_subhalos(nodedata,galacticus_util))
 
 def nodedata_filter_range(nodedata,range,key,galacticus_util=None):
     """Returns a filter that excludes nodes not within the given range for a specified parameter"""
@@ -43,7 +43,7 @@ def nodedata_filter_virialized(nodedata,galacticus_util= None):
     r = np.linalg.norm(rvec,axis=0)
 
     #Filter halos and get there virial radii
-    filtered_halos = nodedata_filter_halos(nodedata)
+    filtered_halos = nodedata_filter_halos(nodedata,gutil)
     rv_halos = nodedata[gutil.PARAM_RADIUS_VIRIAL][filtered_halos]
     halo_output_n = nodedata[gutil.PARAM_TREE_ORDER]
 
-- 
2.43.0


From d58426b0bbbe7465987bf623ec5cf75ed247da02 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:15:27 +0000
Subject: [PATCH 53/65] fix: the virial filter matches nodes to the host of
 their own tree when trees were filtered out

---
 pyHalo/Halos/galacticus_util/galacticus_filter.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/pyHalo/Halos/galacticus_util/galacticus_filter.py b/pyHalo/Halos/galacticus_util/galacticus_filter.py
index ca8f2d9..6b59382 100644
--- a/pyHalo/Halos/galacticus_util/galacticus_filter.py
+++ b/pyHalo/Halos/galacticus_util/galacticus_filter.py
@@ -47,7 +47,11 @@ def nodedata_filter_virialized(nodedata,galacticus_util= None):
     rv_halos = nodedata[gutil.PARAM_RADIUS_VIRIAL][filtered_halos]
     halo_output_n = nodedata[gutil.PARAM_TREE_ORDER]
 
-    filter_virialized = r < rv_halos[halo_output_n]
+    #Assign the virial radius of the host to its own tree, some of the trees might have been filtered out
+    rv_tree = np.zeros(np.max(halo_output_n,initial=-1) + 1)
+    rv_tree[halo_output_n[filtered_halos]] = rv_halos
+
+    filter_virialized = r < rv_tree[halo_output_n]
 
     return filter_virialized
 
-- 
2.43.0


From fbc707e27a22f1b238bb44ae4a336c93ff2d82c1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:20:51 +0000
Subject: [PATCH 54/65] fix: nodes on the projection axis had a nan projected
 radius and were dropped by the r2d filter

---
 pyHalo/Halos/galacticus_util/galacticus_filter.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/pyHalo/Halos/galacticus_util/galacticus_filter.py b/pyHalo/Halos/galacticus_util/galacticus_filter.py
index 6b59382..f0de074 100644
--- a/pyHalo/Halos/galacticus_util/galacticus_filter.py
+++ b/pyHalo/Halos/galacticus_util/galacticus_filter.py
@@ -92,7 +92,8 @@ def project_r2d(x,y,z,plane_normal):
     #Projected distance to plane is sqrt(r.r - (r.un)^2)
     rdotr = np.linalg.norm(coords,axis=0)**2
     rdotun = np.dot(un,coords)
-    return np.sqrt(rdotr - rdotun**2)
+    #Rounding can make the difference negative for points on the normal vector
+    return np.sqrt(np.maximum(rdotr - rdotun**2,0))
     
 
 
-- 
2.43.0


From 5f9a2e69a5f25be6013e9f14986e60d4735a9589 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:37:38 +0000
Subject: [PATCH 55/65] fix: Rmax of generalized NFW profiles with alpha=2, and
 of profiles that need the numerical solver

---
 .../transfer_function_density_profile.py                     | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/pyHalo/Halos/galacticus_truncation/transfer_function_density_profile.py b/pyHalo/Halos/galacticus_truncation/transfer_function_density_profile.py
index bead454..83ffca1 100644
--- a/pyHalo/Halos/galacticus_truncation/transfer_function_density_profile.py
+++ b/pyHalo/Halos/galacticus_truncation/transfer_function_density_profile.py
@@ -4,6 +4,7 @@ import numpy as np
 from scipy.special import hyp2f1
 from scipy.integrate import quad
 from scipy.interpolate import interp1d
+from scipy.optimize import newton
 
 
 # Implement the transfer function of subhalo density profile.
@@ -447,7 +448,7 @@ def _R_max_generalized_NFW_dimensionless(alpha=1.0, beta=3.0, gamma=1.0):
         if (beta == 3.0):
             if (gamma < 2.0):
                 if (gamma == 0.0):
-                    Rmx = 2.919847688299723
+                    Rmax = 2.919847688299723
                 else:
                     status = 0
             else:
@@ -455,7 +456,7 @@ def _R_max_generalized_NFW_dimensionless(alpha=1.0, beta=3.0, gamma=1.0):
         elif (beta == 4.0):
             if (gamma < 2.0):
                 if (gamma == 0.0):
-                    Rmx = 1.825255642519694
+                    Rmax = 1.825255642519694
                 else:
                     status = 0
             else:
-- 
2.43.0


From 222addae92096272dea3a460a4491b2bcb071eae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:37:38 +0000
Subject: [PATCH 56/65] fix: total mass of truncated generalized NFW profiles
 without an analytic expression

---
 .../transfer_function_density_profile.py        | 17 ++++++++++++-----
 1 file changed, 12 insertions(+), 5 deletions(-)

diff --git a/pyHalo/Halos/galacticus_truncation/transfer_function_density_profile.py b/pyHalo/Halos/galacticus_truncation/transfer_function_density_profile.py
index 83ffca1..95681eb 100644
--- a/pyHalo/Halos/galacticus_truncation/transfer_function_density_profile.py
+++ b/pyHalo/Halos/galacticus_truncation/transfer_function_density_profile.py
@@ -645,14 +645,21 @@ def _M_total_generalized_NFW_Truncated_dimensionless(tau, alpha=1.0, beta=3.0, g
         status = 0
 
     if (status == 0):
-        # Use numerical integration.
-        def integral(x):
-            return 4.0 * np.pi * x ** 2 \
+        # Use numerical integration (over the logarithm of the radius, for each truncation radius).
+        def integral(log_x, tau_i):
+            x = np.exp(log_x)
+            return 4.0 * np.pi * x ** 3 \
                    / x ** gamma \
                    / (1.0 + x ** alpha) ** ((beta - gamma) / alpha) \
-                   / (1.0 + (x / tau) ** delta)
+                   / (1.0 + (x / tau_i) ** delta)
 
-        mass = quad(integral, 0.0, np.inf)
+        def total_mass(tau_i):
+            x1, x2 = sorted((0.0, np.log(tau_i)))
+            limits = [x1 - 30.0, x1, x2, x2 + 30.0]
+            return sum(quad(integral, a, b, args=(tau_i,), epsabs=0.0, limit=200)[0]
+                       for a, b in zip(limits[:-1], limits[1:]) if b > a)
+
+        mass = np.vectorize(total_mass, otypes=[float])(tau)[()]
 
     return mass
 
-- 
2.43.0


From 861dd74b1f627d0107e4e8ed9a1b776657995407 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:37:38 +0000
Subject: [PATCH 57/65] fix: the tidal radius is computed for the requested
 power index of the truncation

---
 .../galacticus_truncation/transfer_function_density_profile.py  | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pyHalo/Halos/galacticus_truncation/transfer_function_density_profile.py b/pyHalo/Halos/galacticus_truncation/transfer_function_density_profile.py
index 95681eb..c63b320 100644
--- a/pyHalo/Halos/galacticus_truncation/transfer_function_density_profile.py
+++ b/pyHalo/Halos/galacticus_truncation/transfer_function_density_profile.py
@@ -843,6 +843,6 @@ def compute_r_te_and_f_t(Mbound, MvirInfall, RvirInfall, cInfall, alpha=1.0, bet
     # in good agreement with the fitting function, but is more reliable where the
     # fitting function is not calibrated to simulations.
     Mbound_dimensionless = Mbound / M0
-    r_te = Rs * _Truncation_Radius(Mbound_dimensionless, f_t, alpha, beta, gamma)
+    r_te = Rs * _Truncation_Radius(Mbound_dimensionless, f_t, alpha, beta, gamma, delta)
 
     return r_te, f_t
-- 
2.43.0


From 582d156528e6126247343f85e065a8d9e966a458 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:37:38 +0000
Subject: [PATCH 58/65] fix: the range of the mass table does not depend on
 other profiles or on failed evaluations

---
 .../transfer_function_density_profile.py      | 41 +++++++++++--------
 1 file changed, 24 insertions(+), 17 deletions(-)

diff --git a/pyHalo/Halos/galacticus_truncation/transfer_function_density_profile.py b/pyHalo/Halos/galacticus_truncation/transfer_function_density_profile.py
index c63b320..d3f26f4 100644
--- a/pyHalo/Halos/galacticus_truncation/transfer_function_density_profile.py
+++ b/pyHalo/Halos/galacticus_truncation/transfer_function_density_profile.py
@@ -697,35 +697,42 @@ def _Truncation_Radius(M, f_t, alpha=1.0, beta=3.0, gamma=1.0, delta=2.0):
     :return: the dimensionless truncation radius
     """
 
-    global N_per_decade, x_min, x_max, N_tab, x_tab, M_tab
+    global N_tab, x_tab, M_tab
     global Mass_table_Initialized, alpha_used, beta_used, gamma_used, delta_used, M_min, M_max
     global x_M_interp_loglog
 
     M_unnormalized = M / f_t
 
+    same_profile = Mass_table_Initialized and alpha_used == alpha and beta_used == beta \
+        and gamma_used == gamma and delta_used == delta
     retabulate = True
-    if (Mass_table_Initialized and alpha_used == alpha and beta_used == beta and gamma_used == gamma \
-        and delta_used == delta and np.min(M_unnormalized) >= M_min and np.max(M_unnormalized) <= M_max):
+    if (same_profile and np.min(M_unnormalized) >= M_min and np.max(M_unnormalized) <= M_max):
         retabulate = False
     if (retabulate):
-        M_min = _M_total_generalized_NFW_Truncated_dimensionless(x_min, alpha, beta, gamma, delta)
-        M_max = _M_total_generalized_NFW_Truncated_dimensionless(x_max, alpha, beta, gamma, delta)
-        while (np.min(M_unnormalized) < M_min):
-            x_min = x_min / 2.0
-            M_min = _M_total_generalized_NFW_Truncated_dimensionless(x_min, alpha, beta, gamma, delta)
-
-        while (np.max(M_unnormalized) > M_max):
-            x_max = x_max * 2.0
-            M_max = _M_total_generalized_NFW_Truncated_dimensionless(x_max, alpha, beta, gamma, delta)
-
-        N_tab = int(np.log10(x_max / x_min) * N_per_decade)
-        x_tab = np.geomspace(x_min, x_max, N_tab)
-        M_tab = _M_total_generalized_NFW_Truncated_dimensionless(x_tab, alpha, beta, gamma, delta)
+        # extend the range of the current table if it was made for the same profile
+        x_low, x_high = (float(x_tab[0]), float(x_tab[-1])) if same_profile else (x_min, x_max)
+        M_low = _M_total_generalized_NFW_Truncated_dimensionless(x_low, alpha, beta, gamma, delta)
+        M_high = _M_total_generalized_NFW_Truncated_dimensionless(x_high, alpha, beta, gamma, delta)
+        while (np.min(M_unnormalized) < M_low):
+            x_low = x_low / 2.0
+            M_low = _M_total_generalized_NFW_Truncated_dimensionless(x_low, alpha, beta, gamma, delta)
+
+        while (np.max(M_unnormalized) > M_high):
+            x_high = x_high * 2.0
+            M_high = _M_total_generalized_NFW_Truncated_dimensionless(x_high, alpha, beta, gamma, delta)
+
+        if not (0.0 < x_low < x_high < np.inf and np.isfinite(M_low) and np.isfinite(M_high)):
+            raise ValueError('there is no truncation radius for which the profile has this mass')
+
+        n_new = int(np.log10(x_high / x_low) * N_per_decade)
+        x_new = np.geomspace(x_low, x_high, n_new)
+        M_new = _M_total_generalized_NFW_Truncated_dimensionless(x_new, alpha, beta, gamma, delta)
         # build the inverse interpolation once per (re)tabulation rather than
         # once per call; constructing the cubic spline dominates the runtime
         # of this function when called halo-by-halo
-        x_M_interp_loglog = interp1d(np.log(M_tab), np.log(x_tab), kind='cubic')
+        x_M_interp_loglog = interp1d(np.log(M_new), np.log(x_new), kind='cubic')
 
+        N_tab, x_tab, M_tab, M_min, M_max = n_new, x_new, M_new, M_low, M_high
         Mass_table_Initialized = True
         alpha_used = alpha
         beta_used = beta
-- 
2.43.0


From 0a36ef2e94e8db2c024d67417a90b20e49fe97e9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:27:55 +0000
Subject: [PATCH 59/65] fix: the truncation radius of a heavily stripped TNFW
 halo is not rounded to zero

---
 pyHalo/Halos/HaloModels/TNFW.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/pyHalo/Halos/HaloModels/TNFW.py b/pyHalo/Halos/HaloModels/TNFW.py
index be86874..f03f652 100644
--- a/pyHalo/Halos/HaloModels/TNFW.py
+++ b/pyHalo/Halos/HaloModels/TNFW.py
@@ -210,7 +210,8 @@ class TNFWFieldHalo(Halo):
             x, y = round(float(self.x), 4), round(float(self.y), 4)
             Rs_angle = round(float(Rs_angle), 10)
             theta_Rs = round(float(theta_Rs), 10)
-            r_trunc_arcsec = round(float(rt / self._lens_cosmo.cosmo.kpc_proper_per_asec(self.z)),10)
+            # a heavily stripped halo has a tiny truncation radius, but the profile is not defined for r_trunc = 0
+            r_trunc_arcsec = max(round(float(rt / self._lens_cosmo.cosmo.kpc_proper_per_asec(self.z)),10), 1e-10)
             kwargs = [{'alpha_Rs': self._rescale_norm * theta_Rs, 'Rs': Rs_angle,
                       'center_x': x, 'center_y': y, 'r_trunc': r_trunc_arcsec}]
             self._kwargs_lenstronomy = kwargs
-- 
2.43.0


From 6880d79ea3497660b21028ba5869f312596e0723 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:27:55 +0000
Subject: [PATCH 60/65] fix: the bound mass of a TNFW subhalo does not depend
 on whether its lensing parameters were computed

---
 pyHalo/Halos/HaloModels/TNFW.py | 7 ++-----
 1 file changed, 2 insertions(+), 5 deletions(-)

diff --git a/pyHalo/Halos/HaloModels/TNFW.py b/pyHalo/Halos/HaloModels/TNFW.py
index f03f652..8a4e4ea 100644
--- a/pyHalo/Halos/HaloModels/TNFW.py
+++ b/pyHalo/Halos/HaloModels/TNFW.py
@@ -310,11 +310,8 @@ class TNFWSubhalo(TNFWFieldHalo):
         Computes the mass inside the infall virial radius (with truncation effects included)
         :return: the mass inside r = c * r_s
         """
-        if hasattr(self, '_kwargs_lenstronomy'):
-            tau = self._kwargs_lenstronomy[0]['r_trunc'] / self._kwargs_lenstronomy[0]['Rs']
-        else:
-            params_physical = self.params_physical
-            tau = params_physical['r_trunc_kpc'] / params_physical['rs']
+        params_physical = self.params_physical
+        tau = params_physical['r_trunc_kpc'] / params_physical['rs']
         f = tnfw_mass_fraction(tau, self.c)
         return f * self.mass * self._rescale_norm
 
-- 
2.43.0


From ec36499b8b73ca039908730cd4a92cfba4d12d23 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:34:11 +0000
Subject: [PATCH 61/65] fix: moments of suppressed mass functions over many
 decades in mass are integrated in log mass

---
 pyHalo/Rendering/MassFunctions/util.py | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/pyHalo/Rendering/MassFunctions/util.py b/pyHalo/Rendering/MassFunctions/util.py
index 999dddf..ba8178d 100644
--- a/pyHalo/Rendering/MassFunctions/util.py
+++ b/pyHalo/Rendering/MassFunctions/util.py
@@ -25,7 +25,9 @@ def integrate_power_law_quad(norm, m_low, m_high, n, plaw_index, turnover_functi
     Numerically integrates a power law profile with an arbitrary turnover or shape function
     """
 
-    def _integrand_wdm(m):
-        return norm * m ** (n + plaw_index) * turnover_function(m, **kwargs_turnover)
-    moment = quad(_integrand_wdm, m_low, m_high)[0]
+    # the integral is over ln(m) because quad over m misses the low mass end of a range that spans many decades
+    def _integrand_wdm(log_m):
+        m = np.exp(log_m)
+        return norm * m ** (n + 1 + plaw_index) * turnover_function(m, **kwargs_turnover)
+    moment = quad(_integrand_wdm, np.log(m_low), np.log(m_high))[0]
     return moment
-- 
2.43.0


From 5e29484823e18600f3962d04352928443b29124f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:34:11 +0000
Subject: [PATCH 62/65] fix: moments of suppressed mass functions vanish for an
 empty mass range

---
 pyHalo/Rendering/MassFunctions/util.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/pyHalo/Rendering/MassFunctions/util.py b/pyHalo/Rendering/MassFunctions/util.py
index ba8178d..f2df857 100644
--- a/pyHalo/Rendering/MassFunctions/util.py
+++ b/pyHalo/Rendering/MassFunctions/util.py
@@ -25,6 +25,9 @@ def integrate_power_law_quad(norm, m_low, m_high, n, plaw_index, turnover_functi
     Numerically integrates a power law profile with an arbitrary turnover or shape function
     """
 
+    if m_low >= m_high:
+        # there are no halos in an empty mass range
+        return 0.0
     # the integral is over ln(m) because quad over m misses the low mass end of a range that spans many decades
     def _integrand_wdm(log_m):
         m = np.exp(log_m)
-- 
2.43.0


From 72ca3110a91a943406afe2668e53883d54520be0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:34:11 +0000
Subject: [PATCH 63/65] fix: infall redshifts of the Milky Way models are
 finite at all mass ratios

---
 pyHalo/Halos/accretion.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pyHalo/Halos/accretion.py b/pyHalo/Halos/accretion.py
index 106b623..fb4fa7f 100644
--- a/pyHalo/Halos/accretion.py
+++ b/pyHalo/Halos/accretion.py
@@ -304,8 +304,8 @@ class InfallRedshiftDistributionBase(object):
         sig = self.z_inf_to_z_host_std(mass_ratio)
         bounds = [0.0, 15.0]
         _a, _b = (bounds[0] - mu) / sig, (bounds[1] - mu) / sig
-        _u = numpy.random.uniform(ndtr(_a), ndtr(_b))
-        z = float(mu + sig * ndtri(_u))
+        # (_a, _b) can lie far in the tail of the distribution, where the cdf is not distinguishable from 0 or 1
+        z = float(truncnorm.rvs(_a, _b, loc=mu, scale=sig))
         return self._z_lens + z
 
     @staticmethod
-- 
2.43.0


From 92c4e3a2462e5cd6247c56af3a881cbf3e33cb95 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:41:17 +0000
Subject: [PATCH 64/65] fix: correlation functions of convergence maps work
 with scipy versions where simpson takes x by keyword

---
 pyHalo/realization_extensions.py | 14 +++++++-------
 1 file changed, 7 insertions(+), 7 deletions(-)

diff --git a/pyHalo/realization_extensions.py b/pyHalo/realization_extensions.py
index 590b07c..8260231 100644
--- a/pyHalo/realization_extensions.py
+++ b/pyHalo/realization_extensions.py
@@ -1370,20 +1370,20 @@ def corr_kappa_with_mask(kappa_map, map_size, r, mu, apply_mask=True, r_min=0.5,
             kappa_interp_1 = kappa_interp_1_*mask_interp_1
             kappa_interp_2 = kappa_interp_2_*mask_interp_2
 
-            term_1 = simps(simps(kappa_interp_1*kappa_interp_2, x_, axis=0), y_, axis=-1)
-            term_2_1 = simps(simps(kappa_interp_1*mask_interp_2, x_, axis=0), y_, axis=-1)
-            term_2_2 = simps(simps(mask_interp_1*kappa_interp_2, x_, axis=0), y_, axis=-1)
-            term_3 = simps(simps(mask_interp_1*mask_interp_2, x_, axis=0), y_, axis=-1)
+            term_1 = simps(simps(kappa_interp_1*kappa_interp_2, x=x_, axis=0), x=y_, axis=-1)
+            term_2_1 = simps(simps(kappa_interp_1*mask_interp_2, x=x_, axis=0), x=y_, axis=-1)
+            term_2_2 = simps(simps(mask_interp_1*kappa_interp_2, x=x_, axis=0), x=y_, axis=-1)
+            term_3 = simps(simps(mask_interp_1*mask_interp_2, x=x_, axis=0), x=y_, axis=-1)
 
             NCC_num = (term_1 - ((term_2_1*term_2_2)/term_3))/Area
 
-            term_4 = simps(simps((kappa_interp_1**2)*mask_interp_2, x_, axis=0), y_, axis=-1)
+            term_4 = simps(simps((kappa_interp_1**2)*mask_interp_2, x=x_, axis=0), x=y_, axis=-1)
             term_5 = term_2_1**2
             term_6 = term_3
 
             NCC_den_1 = (term_4 - (term_5/term_6))/Area
 
-            term_7 = simps(simps(mask_interp_1*(kappa_interp_2**2), x_, axis=0), y_, axis=-1)
+            term_7 = simps(simps(mask_interp_1*(kappa_interp_2**2), x=x_, axis=0), x=y_, axis=-1)
             term_8 = term_2_2**2
             term_9 = term_3
 
@@ -1422,7 +1422,7 @@ def xi_l(l, corr, r, mu):
 
     xi_l = np.zeros(r.shape[0])
     for i in range(r.shape[0]):
-        xi_l[i] = simps(func[i], np.flip(np.arccos(mu)), axis=0)
+        xi_l[i] = simps(func[i], x=np.flip(np.arccos(mu)), axis=0)
 
     return r, prefactor*xi_l
 
-- 
2.43.0


From 00e288fe4785fde483184cc257fa55e587df16d1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:28:55 +0000
Subject: [PATCH 65/65] fix: updating the arguments of a halo leaves those of
 other halos unchanged

---
 pyHalo/Halos/halo_base.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/pyHalo/Halos/halo_base.py b/pyHalo/Halos/halo_base.py
index 55f823c..d996f87 100644
--- a/pyHalo/Halos/halo_base.py
+++ b/pyHalo/Halos/halo_base.py
@@ -72,7 +72,8 @@ class Halo(ABC):
         :param kwargs_halo: additional keyword arguments that include default settings for the halo
         :return:
         """
-        self._args.update(kwargs_halo)
+        # the dictionary may be shared with other halos
+        self._args = dict(self._args, **kwargs_halo)
 
     @property
     def rescale_norm(self):
-- 
2.43.0

