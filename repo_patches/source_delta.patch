From d2eda9df79942edc3f27f11596ca2a9ea8ec15f3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:22:32 +0000
Subject: [PATCH 01/43] fix: derive body and relative velocities from the
 central's semi-amplitude when it is set on the Body

---
 src/jaxoplanet/orbits/keplerian.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/jaxoplanet/orbits/keplerian.py b/src/jaxoplanet/orbits/keplerian.py
index 77fc96a..a2c92ce 100644
--- a/src/jaxoplanet/orbits/keplerian.py
+++ b/src/jaxoplanet/orbits/keplerian.py
@@ -472,6 +472,8 @@ class OrbitalBody(eqx.Module):
             The components of the velocity vector at ``t`` in units of
             ``R_sun/day``.
         """
+        if semiamplitude is None:
+            semiamplitude = self.radial_velocity_semiamplitude
         if semiamplitude is None:
             mass: Quantity = -self.central.mass  # type: ignore
             return self._get_position_and_velocity(t, mass=mass)[1]
@@ -515,6 +517,8 @@ class OrbitalBody(eqx.Module):
             The components of the velocity vector at ``t`` in units of
             ``M_sun/day``.
         """
+        if semiamplitude is None:
+            semiamplitude = self.radial_velocity_semiamplitude
         if semiamplitude is None:
             mass: Quantity = -self.total_mass  # type: ignore
             return self._get_position_and_velocity(t, mass=mass)[1]
-- 
2.43.0


From da5ab285d92b9bd1342630356d82b949c1db0961 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:22:32 +0000
Subject: [PATCH 02/43] fix: treat a body without a mass as massless in
 central_position and central_velocity

---
 src/jaxoplanet/orbits/keplerian.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/jaxoplanet/orbits/keplerian.py b/src/jaxoplanet/orbits/keplerian.py
index a2c92ce..518377e 100644
--- a/src/jaxoplanet/orbits/keplerian.py
+++ b/src/jaxoplanet/orbits/keplerian.py
@@ -415,7 +415,8 @@ class OrbitalBody(eqx.Module):
             The components of the position vector at ``t`` in units of
             ``R_sun``.
         """
-        semimajor = self.semimajor * self.mass / self.total_mass
+        mass = 0 * ureg.M_sun if self.mass is None else self.mass
+        semimajor = self.semimajor * mass / self.total_mass
         return self._get_position_and_velocity(
             t, semimajor=semimajor, parallax=parallax
         )[0]
@@ -497,7 +498,8 @@ class OrbitalBody(eqx.Module):
             ``M_sun/day``.
         """
         if semiamplitude is None:
-            return self._get_position_and_velocity(t, mass=self.mass)[1]
+            mass = 0 * ureg.M_sun if self.mass is None else self.mass
+            return self._get_position_and_velocity(t, mass=mass)[1]
         _, v = self._get_position_and_velocity(t, semiamplitude=semiamplitude)
         return v
 
-- 
2.43.0


From 7fe58391b285dc8c565b79f465d97da29126e945 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:27:00 +0000
Subject: [PATCH 03/43] fix: limb crossing angles when an equal-sized occultor
 is exactly centered

At (b, r) = (0, 1) arctan2(0, 0) gave kappa1 = 0 instead of pi, so that a fully
occulted surface kept (part of) its flux, and the gradients were nan there and at
(b, r) = (1, 0).
---
 src/jaxoplanet/core/limb_dark.py       | 12 +++++++++++-
 src/jaxoplanet/starry/core/solution.py | 12 +++++++++++-
 2 files changed, 22 insertions(+), 2 deletions(-)

diff --git a/src/jaxoplanet/core/limb_dark.py b/src/jaxoplanet/core/limb_dark.py
index f6bb92b..dd061ed 100644
--- a/src/jaxoplanet/core/limb_dark.py
+++ b/src/jaxoplanet/core/limb_dark.py
@@ -105,7 +105,17 @@ def kappas(b: Array, r: Array) -> tuple[Array, Array, Array]:
     cond = jnp.logical_and(jnp.greater(b, jnp.abs(1 - r)), jnp.less(b, 1 + r))
     b_ = jnp.where(cond, b, jnp.ones_like(b))
     area: Array = jnp.where(cond, kite_area(r, b_, jnp.ones_like(r)), jnp.zeros_like(r))
-    return area, jnp.arctan2(area, b2 + factor), jnp.arctan2(area, b2 - factor)
+
+    # If the limbs don't cross, these angles are 0 or pi. We can't leave that to arctan2
+    # because at (b, r) = (0, 1) it would return kappa1 = 0 instead of pi, and its
+    # derivative isn't defined there.
+    x0 = b2 + factor
+    x1 = b2 - factor
+    kappa0 = jnp.arctan2(area, jnp.where(cond, x0, jnp.ones_like(x0)))
+    kappa0 = jnp.where(cond, kappa0, jnp.where(jnp.less(x0, 0), jnp.pi, 0.0))
+    kappa1 = jnp.arctan2(area, jnp.where(cond, x1, jnp.ones_like(x1)))
+    kappa1 = jnp.where(cond, kappa1, jnp.where(jnp.less_equal(x1, 0), jnp.pi, 0.0))
+    return area, kappa0, kappa1
 
 
 def s0s2(
diff --git a/src/jaxoplanet/starry/core/solution.py b/src/jaxoplanet/starry/core/solution.py
index 8536bac..495e775 100644
--- a/src/jaxoplanet/starry/core/solution.py
+++ b/src/jaxoplanet/starry/core/solution.py
@@ -33,7 +33,17 @@ def kappas(b: Array, r: Array) -> tuple[Array, Array]:
     b_cond = jnp.logical_and(jnp.greater(b, jnp.abs(1 - r)), jnp.less(b, 1 + r))
     b_ = jnp.where(b_cond, b, 1)
     area = jnp.where(b_cond, kite_area(r, b_, 1), 0)
-    return jnp.arctan2(area, b2 + factor), jnp.arctan2(area, b2 - factor)
+
+    # If the limbs don't cross, these angles are 0 or pi. We can't leave that to arctan2
+    # because at (b, r) = (0, 1) it would return kappa1 = 0 instead of pi, and its
+    # derivative isn't defined there.
+    x0 = b2 + factor
+    x1 = b2 - factor
+    kappa0 = jnp.arctan2(area, jnp.where(b_cond, x0, 1))
+    kappa0 = jnp.where(b_cond, kappa0, jnp.where(jnp.less(x0, 0), jnp.pi, 0))
+    kappa1 = jnp.arctan2(area, jnp.where(b_cond, x1, 1))
+    kappa1 = jnp.where(b_cond, kappa1, jnp.where(jnp.less_equal(x1, 0), jnp.pi, 0))
+    return kappa0, kappa1
 
 
 def q_integral(l_max: int, lam: Array) -> Array:
-- 
2.43.0


From c144c13eccf4b0ceb54d7052e1ea042ea55d4141 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:27:19 +0000
Subject: [PATCH 04/43] fix: eccentric anomaly at transit for periastron at
 omega = -pi/2

The half-angle formula evaluates arctan2(0, 0) = 0 instead of pi/2 when
sin_omega_peri = -1 and cos_omega_peri = 0 (so that 'time_transit' was the time of
the occultation), and loses all precision in its derivative close to that.
---
 src/jaxoplanet/orbits/keplerian.py | 9 ++++-----
 1 file changed, 4 insertions(+), 5 deletions(-)

diff --git a/src/jaxoplanet/orbits/keplerian.py b/src/jaxoplanet/orbits/keplerian.py
index 518377e..146005a 100644
--- a/src/jaxoplanet/orbits/keplerian.py
+++ b/src/jaxoplanet/orbits/keplerian.py
@@ -321,14 +321,13 @@ class OrbitalBody(eqx.Module):
         else:
             assert self.sin_omega_peri is not None
             assert self.cos_omega_peri is not None
-            opsw = 1 + self.sin_omega_peri
-            E0 = 2 * jnpu.arctan2(
-                jnpu.sqrt(1 - self.eccentricity) * self.cos_omega_peri,
-                jnpu.sqrt(1 + self.eccentricity) * opsw,
+            ome2 = 1 - self.eccentricity**2
+            E0 = jnpu.arctan2(
+                jnpu.sqrt(ome2) * self.cos_omega_peri,
+                self.eccentricity + self.sin_omega_peri,
             )
             M0 = E0 - self.eccentricity * jnpu.sin(E0)
 
-            ome2 = 1 - self.eccentricity**2
             incl_factor = (1 + self.eccentricity * self.sin_omega_peri) / ome2
 
         # Handle inclined orbits
-- 
2.43.0


From 2191c87a25ff070ff9fc73e600a2365ce13d2b0e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:27:56 +0000
Subject: [PATCH 05/43] fix: nan gradient of light curves for an exactly
 centered transit

---
 src/jaxoplanet/light_curves/emission.py  | 12 +++++++-----
 src/jaxoplanet/light_curves/limb_dark.py |  8 +++++---
 2 files changed, 12 insertions(+), 8 deletions(-)

diff --git a/src/jaxoplanet/light_curves/emission.py b/src/jaxoplanet/light_curves/emission.py
index f97da38..e2f3394 100644
--- a/src/jaxoplanet/light_curves/emission.py
+++ b/src/jaxoplanet/light_curves/emission.py
@@ -10,6 +10,7 @@ from jaxoplanet.light_curves.utils import vectorize
 from jaxoplanet.starry.orbit import SurfaceSystem
 from jaxoplanet.types import Array, Quantity
 from jaxoplanet.units import unit_registry as ureg
+from jaxoplanet.utils import zero_safe_sqrt
 
 
 def light_curve(system: SurfaceSystem, order: int = 10) -> Callable[[Quantity], Array]:
@@ -33,23 +34,24 @@ def light_curve(system: SurfaceSystem, order: int = 10) -> Callable[[Quantity],
         r_star = system.central.radius
         x, y, z = system.relative_position(time)
 
-        b = jnpu.sqrt(x**2 + y**2) / r_star
-        assert b.units == ureg.dimensionless
+        b2 = (x**2 + y**2) / r_star**2
+        assert b2.units == ureg.dimensionless
+        b = zero_safe_sqrt(b2.magnitude)
         r = system.radius / r_star
         assert r.units == ureg.dimensionless
 
         lc_func = partial(_limb_dark_light_curve, system.central_surface.u, order=order)
-        lc = lc_func(b.magnitude, r.magnitude)
+        lc = lc_func(b, r.magnitude)
         lc = jnp.where(z > 0, lc, 0.0).sum(0) + 1
 
         bodies_lc = []
         for body, surface in zip(system.bodies, system.body_surfaces, strict=False):
             x, y, z = body.relative_position(time)
-            b = jnpu.sqrt(x**2 + y**2) / body.radius
+            b = zero_safe_sqrt(((x**2 + y**2) / body.radius**2).magnitude)
             r = r_star / body.radius
 
             lc_func = partial(_limb_dark_light_curve, surface.u, order=order)
-            lc_body = lc_func(b.magnitude, r.magnitude)
+            lc_body = lc_func(b, r.magnitude)
             lc_body = surface.amplitude * (1 + jnp.where(z < 0, lc_body, 0))
 
             bodies_lc.append(lc_body)
diff --git a/src/jaxoplanet/light_curves/limb_dark.py b/src/jaxoplanet/light_curves/limb_dark.py
index 018b662..276172f 100644
--- a/src/jaxoplanet/light_curves/limb_dark.py
+++ b/src/jaxoplanet/light_curves/limb_dark.py
@@ -12,6 +12,7 @@ from jaxoplanet.light_curves.utils import vectorize
 from jaxoplanet.proto import LightCurveOrbit
 from jaxoplanet.types import Array, Quantity
 from jaxoplanet.units import unit_registry as ureg
+from jaxoplanet.utils import zero_safe_sqrt
 
 
 def light_curve(
@@ -53,13 +54,14 @@ def light_curve(
         r_star = orbit.central_radius
         x, y, z = orbit.relative_position(time)
 
-        b = jnpu.sqrt(x**2 + y**2) / r_star
-        assert b.units == ureg.dimensionless
+        b2 = (x**2 + y**2) / r_star**2
+        assert b2.units == ureg.dimensionless
+        b = zero_safe_sqrt(b2.magnitude)
         r = orbit.radius / r_star
         assert r.units == ureg.dimensionless
 
         lc_func = partial(_limb_dark_light_curve, ld_u, order=order)
-        lc = lc_func(b.magnitude, r.magnitude)
+        lc = lc_func(b, r.magnitude)
         lc = jnp.where(z > 0, lc, 0)
 
         return lc
-- 
2.43.0


From 0175b08bba7e28a9d9f673a443ffb5370040dec0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:27:56 +0000
Subject: [PATCH 06/43] fix: scale the central's flux by its surface amplitude
 in the emission light curve

---
 src/jaxoplanet/light_curves/emission.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/jaxoplanet/light_curves/emission.py b/src/jaxoplanet/light_curves/emission.py
index e2f3394..2ac1ca8 100644
--- a/src/jaxoplanet/light_curves/emission.py
+++ b/src/jaxoplanet/light_curves/emission.py
@@ -43,6 +43,7 @@ def light_curve(system: SurfaceSystem, order: int = 10) -> Callable[[Quantity],
         lc_func = partial(_limb_dark_light_curve, system.central_surface.u, order=order)
         lc = lc_func(b, r.magnitude)
         lc = jnp.where(z > 0, lc, 0.0).sum(0) + 1
+        lc = system.central_surface.amplitude * lc
 
         bodies_lc = []
         for body, surface in zip(system.bodies, system.body_surfaces, strict=False):
-- 
2.43.0


From 866ffcb6317f7c23c3921254b155f39bfa1569ec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:27:57 +0000
Subject: [PATCH 07/43] fix: scale the flux of occulted uniform surfaces by
 their amplitude

---
 src/jaxoplanet/starry/light_curves.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/jaxoplanet/starry/light_curves.py b/src/jaxoplanet/starry/light_curves.py
index c8ac0b8..3bf514c 100644
--- a/src/jaxoplanet/starry/light_curves.py
+++ b/src/jaxoplanet/starry/light_curves.py
@@ -91,7 +91,7 @@ def surface_light_curve(
 
             lc_func = partial(_limb_dark_light_curve, ld_u, order=order)
             lc = lc_func(b, r)
-            return 1.0 + jnp.where(b_occ, lc, 0)
+            return surface.amplitude * (1.0 + jnp.where(b_occ, lc, 0))
 
         else:
             theta_z = jnp.arctan2(x, y)
-- 
2.43.0


From 560b3d4faf1e9c96e1ac390a88bc9fb162a8ba6e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:27:57 +0000
Subject: [PATCH 08/43] fix: add the reflex motion due to all bodies to the
 central's radial velocity

---
 src/jaxoplanet/starry/doppler.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/jaxoplanet/starry/doppler.py b/src/jaxoplanet/starry/doppler.py
index 7a9ab36..66f84ce 100644
--- a/src/jaxoplanet/starry/doppler.py
+++ b/src/jaxoplanet/starry/doppler.py
@@ -173,7 +173,8 @@ def radial_velocity(system, order=20):
 
     def impl(time):
         rvs = bodies_rv(time)
-        rvs = rvs.at[:, 0].set(rvs[:, 0] + system.radial_velocity(time)[0].magnitude)
+        central_rv = system.radial_velocity(time).magnitude.sum(0)
+        rvs = rvs.at[..., 0].set(rvs[..., 0] + central_rv)
         return rvs
 
     return impl
-- 
2.43.0


From b723180deda7cd0d531dbac1c1e9de5ae3b2fc8c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:29:28 +0000
Subject: [PATCH 09/43] fix: the radial velocity of a surface doesn't depend on
 its amplitude

---
 src/jaxoplanet/starry/doppler.py | 6 ++----
 1 file changed, 2 insertions(+), 4 deletions(-)

diff --git a/src/jaxoplanet/starry/doppler.py b/src/jaxoplanet/starry/doppler.py
index 66f84ce..cfb5b6b 100644
--- a/src/jaxoplanet/starry/doppler.py
+++ b/src/jaxoplanet/starry/doppler.py
@@ -143,8 +143,6 @@ def surface_radial_velocity(
 
     p_y = Pijk.from_dense(A1_val @ rotated_y, degree=surface.ydeg)
 
-    norm = np.pi / (p_u.tosparse() @ rT(surface.udeg))
-
     # the radial velocity map
     y_rv = rv_map_expansion(
         inc=surface._inc, obl=surface._obl, veq=surface.veq, alpha=None
@@ -163,9 +161,9 @@ def surface_radial_velocity(
 
     n_deg = (surface.deg + 1) ** 2
 
-    intensity = (p_yu.tosparse() @ design_matrix_p[0:n_deg]) * norm
+    intensity = p_yu.tosparse() @ design_matrix_p[0:n_deg]
 
-    return surface.amplitude * rv * norm / intensity
+    return rv / intensity
 
 
 def radial_velocity(system, order=20):
-- 
2.43.0


From 19cd5a0bc2b479ea0c528d117b8f07075331cefc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:30:34 +0000
Subject: [PATCH 10/43] fix: sign of the rotation about z in projections of
 maps with an obliquity but no inclination

---
 src/jaxoplanet/starry/core/rotation.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/jaxoplanet/starry/core/rotation.py b/src/jaxoplanet/starry/core/rotation.py
index c819e8d..1be55b0 100644
--- a/src/jaxoplanet/starry/core/rotation.py
+++ b/src/jaxoplanet/starry/core/rotation.py
@@ -40,7 +40,7 @@ def dot_rotation_matrix(ydeg, x, y, z, theta):
         if z is None:
             raise ValueError("Either x, y, or z must be specified")
 
-        return dot_rz(ydeg, theta)
+        return dot_rz(ydeg, jnp.sign(z) * theta)
 
     x = 0.0 if x is None else x
     y = 0.0 if y is None else y
@@ -157,7 +157,7 @@ def sky_projection_axis_angle(inc: float | None, obl: float | None):
         return 1.0, None, None, inc
 
     elif inc is None:
-        return None, None, 1.0, obl
+        return None, None, -1.0, obl
 
     else:
         co = jnp.cos(obl / 2)
-- 
2.43.0


From 38536b8a4b68e1217895e0cf5ec7685c246fb1cd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:30:34 +0000
Subject: [PATCH 11/43] fix: a map seen from the pole (inc=None) has no
 rotational radial velocity field

---
 src/jaxoplanet/starry/doppler.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/jaxoplanet/starry/doppler.py b/src/jaxoplanet/starry/doppler.py
index cfb5b6b..713272a 100644
--- a/src/jaxoplanet/starry/doppler.py
+++ b/src/jaxoplanet/starry/doppler.py
@@ -13,8 +13,9 @@ from jaxoplanet.starry.system_observable import system_observable
 
 
 def rv_map_expansion(veq=None, inc=None, obl=None, alpha=None):
-    cosi = jnp.cos(inc) if inc is not None else 0.0
-    sini = jnp.sin(inc) if inc is not None else 1.0
+    # inc=None means that the map is seen from the pole
+    cosi = jnp.cos(inc) if inc is not None else 1.0
+    sini = jnp.sin(inc) if inc is not None else 0.0
     cosl = jnp.cos(obl) if obl is not None else 1.0
     sinl = jnp.sin(obl) if obl is not None else 0.0
     A = sini * cosl
-- 
2.43.0


From d15cbb4a72ac73c66abbbd7c1a75d48c8270ce7d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:31:11 +0000
Subject: [PATCH 12/43] fix: radial velocity of surfaces that are not rotating

---
 src/jaxoplanet/starry/surface.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/jaxoplanet/starry/surface.py b/src/jaxoplanet/starry/surface.py
index 6a93648..4c197b4 100644
--- a/src/jaxoplanet/starry/surface.py
+++ b/src/jaxoplanet/starry/surface.py
@@ -136,7 +136,9 @@ class Surface(eqx.Module):
 
     @property
     def veq(self):
-        """Equatorial velocity of the map in Rsun/day."""
+        """Equatorial velocity of the map in Rsun/day. None if not rotating."""
+        if self.period is None:
+            return None
         return 2 * jnp.pi * self.radius / self.period
 
     def _poly_basis(self, rv=False):
-- 
2.43.0


From 643f66616905c517e8460e4d02276383f8f5730d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:31:11 +0000
Subject: [PATCH 13/43] fix: convert the units of quantities passed to TTVOrbit

---
 src/jaxoplanet/orbits/ttv.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/jaxoplanet/orbits/ttv.py b/src/jaxoplanet/orbits/ttv.py
index c4f9864..41c8b66 100644
--- a/src/jaxoplanet/orbits/ttv.py
+++ b/src/jaxoplanet/orbits/ttv.py
@@ -8,9 +8,9 @@ from jaxoplanet.units import unit_registry as ureg
 
 
 def ensure_quantity(x, unit):
-    """Convert x to a JAX array with the given unit if it isn’t already a quantity."""
+    """Convert x to a quantity with the given unit."""
     if hasattr(x, "to"):
-        return x
+        return x.to(unit)
     else:
         return jnp.asarray(x) * unit
 
-- 
2.43.0


From 39d5188065e0ebe7c1e1964252ad0c9068a00084 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:31:24 +0000
Subject: [PATCH 14/43] fix: TTVOrbit with ttvs for several planets, and inside
 of jit

---
 src/jaxoplanet/orbits/ttv.py | 20 ++++++--------------
 1 file changed, 6 insertions(+), 14 deletions(-)

diff --git a/src/jaxoplanet/orbits/ttv.py b/src/jaxoplanet/orbits/ttv.py
index 41c8b66..1e20147 100644
--- a/src/jaxoplanet/orbits/ttv.py
+++ b/src/jaxoplanet/orbits/ttv.py
@@ -193,23 +193,15 @@ class TTVOrbit(TransitOrbit):
                 self.transit_inds = tuple(jnp.arange(ttv.shape[0]) for ttv in self.ttvs)
             else:
                 self.transit_inds = tuple(transit_inds)
-            self.t0 = jnp.atleast_1d(time_transit.magnitude)
+            n_planets = (len(self.ttvs),)
+            self.t0 = jnp.broadcast_to(time_transit.magnitude, n_planets)
             # For ttvs mode, period is required and used directly:
-            self.ttv_period = jnp.atleast_1d(period.magnitude)
+            self.ttv_period = jnp.broadcast_to(period.magnitude, n_planets)
             # Reconstruct transit_times: t0 + period * inds + ttvs
             transit_times_list = []
-            for ttv, inds in zip(self.ttvs, self.transit_inds, strict=False):
-                # Handle single-planet t0 and period versus multi-planet cases.
-                if self.t0.ndim > 0 and self.t0.shape[0] > 1:
-                    t0_i = self.t0[len(transit_times_list)]
-                    period_i = self.ttv_period[len(transit_times_list)]
-                else:
-                    t0_i = self.t0.item() if hasattr(self.t0, "item") else self.t0
-                    period_i = (
-                        self.ttv_period.item()
-                        if hasattr(self.ttv_period, "item")
-                        else self.ttv_period
-                    )
+            for t0_i, period_i, inds, ttv in zip(
+                self.t0, self.ttv_period, self.transit_inds, self.ttvs, strict=False
+            ):
                 transit_times_list.append(t0_i + period_i * inds + ttv)
             self.transit_times = tuple(transit_times_list)
 
-- 
2.43.0


From db08d20089eb56bb52c20918c3978cc460d3e691 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:59:02 +0000
Subject: [PATCH 15/43] fix: exposure time integration of light curves with
 units

---
 src/jaxoplanet/light_curves/transforms.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/jaxoplanet/light_curves/transforms.py b/src/jaxoplanet/light_curves/transforms.py
index 6c2a0e9..f6ccf2a 100644
--- a/src/jaxoplanet/light_curves/transforms.py
+++ b/src/jaxoplanet/light_curves/transforms.py
@@ -116,7 +116,10 @@ def integrate(
 @lu.transformation  # type: ignore
 def apply_exposure_time_integration(stencil, dt, time, args, kwargs):
     result = yield (time + dt,) + args, kwargs
-    yield jnpu.dot(stencil, result)
+    if is_quantity(result):
+        yield jnp.dot(stencil, result.magnitude) * result.units
+    else:
+        yield jnp.dot(stencil, result)
 
 
 @units.quantity_input(period=ureg.day, time_transit=ureg.day, duration=ureg.day)
-- 
2.43.0


From 6a91610491cc8bbf4888e6f0d42f2cb088eb184d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:00:33 +0000
Subject: [PATCH 16/43] fix: emission light curve of systems with bodies that
 have no surface

---
 src/jaxoplanet/light_curves/emission.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/jaxoplanet/light_curves/emission.py b/src/jaxoplanet/light_curves/emission.py
index 2ac1ca8..505302c 100644
--- a/src/jaxoplanet/light_curves/emission.py
+++ b/src/jaxoplanet/light_curves/emission.py
@@ -47,6 +47,11 @@ def light_curve(system: SurfaceSystem, order: int = 10) -> Callable[[Quantity],
 
         bodies_lc = []
         for body, surface in zip(system.bodies, system.body_surfaces, strict=False):
+            # a body without a surface is dark
+            if surface is None:
+                bodies_lc.append(0.0)
+                continue
+
             x, y, z = body.relative_position(time)
             b = zero_safe_sqrt(((x**2 + y**2) / body.radius**2).magnitude)
             r = r_star / body.radius
-- 
2.43.0


From e5079a6e7eb540345cd068e1fcba4ac911928c7d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:06:22 +0000
Subject: [PATCH 17/43] fix: negative in_axes when mapping over bodies with
 different structure

---
 src/jaxoplanet/object_stack.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/jaxoplanet/object_stack.py b/src/jaxoplanet/object_stack.py
index 6668edf..2074014 100644
--- a/src/jaxoplanet/object_stack.py
+++ b/src/jaxoplanet/object_stack.py
@@ -130,7 +130,8 @@ def index_helper(n, arg, axis):
     if axis is None:
         return arg
     else:
-        idx = (slice(None),) * axis + (n,)
+        # Like jax.vmap, negative axes are counted from the last one
+        idx = (slice(None),) * (axis % jnpu.ndim(arg)) + (n,)
         return arg[idx]
 
 
-- 
2.43.0


From 09ee75004814830a91cd2a17b040c1df694deee6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:06:35 +0000
Subject: [PATCH 18/43] fix: keyword arguments of light curves integrated over
 the exposure time

---
 src/jaxoplanet/light_curves/transforms.py | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/src/jaxoplanet/light_curves/transforms.py b/src/jaxoplanet/light_curves/transforms.py
index f6ccf2a..265e7c7 100644
--- a/src/jaxoplanet/light_curves/transforms.py
+++ b/src/jaxoplanet/light_curves/transforms.py
@@ -3,7 +3,7 @@
 
 __all__ = ["integrate", "interpolate"]
 
-from functools import wraps
+from functools import partial, wraps
 from typing import Any
 
 import jax
@@ -106,9 +106,11 @@ def integrate(
                 "on GitHub demonstrating the problem"
             )
 
-        f = lu.wrap_init(jax.vmap(func, in_axes=(0,) + (None,) * len(args)))
+        # Any keyword arguments are bound here since 'vmap' would map over them
+        func_ = jax.vmap(partial(func, **kwargs), in_axes=(0,) + (None,) * len(args))
+        f = lu.wrap_init(func_)
         f = apply_exposure_time_integration(f, stencil, dt)  # type: ignore
-        return f.call_wrapped(time, args, kwargs)  # type: ignore
+        return f.call_wrapped(time, args, {})  # type: ignore
 
     return wrapped
 
-- 
2.43.0


From a19e12c62e0ab66a4559c07667b842c04c1ebfb0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:07:01 +0000
Subject: [PATCH 19/43] fix: reject mismatched sizes when mapping over bodies
 with different structure

---
 src/jaxoplanet/object_stack.py | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/jaxoplanet/object_stack.py b/src/jaxoplanet/object_stack.py
index 2074014..a4440d4 100644
--- a/src/jaxoplanet/object_stack.py
+++ b/src/jaxoplanet/object_stack.py
@@ -98,6 +98,12 @@ class ObjectStack(eqx.Module, Generic[Obj]):
             in_axes_flat = jax.api_util.flatten_axes(  # type: ignore
                 "body_vmap in_axes", in_tree, in_axes_
             )
+            for arg, axis in zip(args_flat, in_axes_flat, strict=False):
+                if axis is not None and jnpu.shape(arg)[axis] != len(self):
+                    raise ValueError(
+                        f"Expected mapped axes of size {len(self)}, but argument has "
+                        f"size {jnpu.shape(arg)[axis]} along axis {axis}"
+                    )
 
             # Then loop over the bodies and accumulate the function results
             results = []
-- 
2.43.0


From 195ac434a1de623821327a8afd7a2e87fc5dbae9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:07:53 +0000
Subject: [PATCH 20/43] fix: interpolate light curves with more than one output

---
 src/jaxoplanet/light_curves/transforms.py | 23 +++++++++++++++--------
 1 file changed, 15 insertions(+), 8 deletions(-)

diff --git a/src/jaxoplanet/light_curves/transforms.py b/src/jaxoplanet/light_curves/transforms.py
index 265e7c7..8238275 100644
--- a/src/jaxoplanet/light_curves/transforms.py
+++ b/src/jaxoplanet/light_curves/transforms.py
@@ -188,14 +188,21 @@ def interpolate(
             + 0.5 * period
             + time_transit
         )
-        flux = jnp.interp(
-            time_wrapped.magnitude,
-            time_grid.magnitude,
-            flux_magnitude,
-            left=flux_magnitude[0],
-            right=flux_magnitude[-1],
-            period=period.magnitude,
-        )
+
+        def interp(flux: Array) -> Array:
+            return jnp.interp(
+                time_wrapped.magnitude,
+                time_grid.magnitude,
+                flux,
+                left=flux[0],
+                right=flux[-1],
+                period=period.magnitude,
+            )
+
+        # The light curves of several planets are interpolated separately
+        for _ in range(jnp.ndim(flux_magnitude) - 1):
+            interp = jax.vmap(interp, in_axes=-1, out_axes=-1)
+        flux = interp(flux_magnitude)
         if flux_units is None:
             return flux
         else:
-- 
2.43.0


From fef63f3c93627493d41aec5ea6fb652ccfe85bf4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:08:25 +0000
Subject: [PATCH 21/43] fix: TTVOrbit transits misplaced when time_transit is
 given with transit_times

---
 src/jaxoplanet/orbits/ttv.py | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/src/jaxoplanet/orbits/ttv.py b/src/jaxoplanet/orbits/ttv.py
index 1e20147..668d056 100644
--- a/src/jaxoplanet/orbits/ttv.py
+++ b/src/jaxoplanet/orbits/ttv.py
@@ -247,8 +247,7 @@ class TTVOrbit(TransitOrbit):
     def _warp_times(self, t: Quantity) -> Quantity:
         """Warp times based on transit timing variations."""
         dt = self._get_model_dt(t)
-        t0_days = self.t0.to(ureg.d) if hasattr(self.t0, "to") else self.t0 * ureg.d
-        return t - (dt - t0_days)
+        return t - (dt - self.time_transit)
 
     @units.quantity_input(t=ureg.d, parallax=ureg.arcsec)
     def relative_position(
-- 
2.43.0


From 7867691a0d1eb389ce88214e0294eb7700cf8cda Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:09:06 +0000
Subject: [PATCH 22/43] fix: center the exposure of single sample trapezoid and
 Simpson integrals

---
 src/jaxoplanet/light_curves/transforms.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/jaxoplanet/light_curves/transforms.py b/src/jaxoplanet/light_curves/transforms.py
index 8238275..7f297a9 100644
--- a/src/jaxoplanet/light_curves/transforms.py
+++ b/src/jaxoplanet/light_curves/transforms.py
@@ -75,6 +75,10 @@ def integrate(
     num_samples += 1 - num_samples % 2
     stencil = jnp.ones(num_samples)
 
+    # A single sample can only be taken at the center of the exposure
+    if num_samples == 1 and order in (1, 2):
+        order = 0
+
     # Construct exposure time integration stencil
     if order == 0:
         dt = jnp.linspace(-0.5, 0.5, 2 * num_samples + 1)[1:-1:2]
-- 
2.43.0


From 757ec682cf7d127783855cb2045721e8fb4d9107 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:16:31 +0000
Subject: [PATCH 23/43] fix: polynomial_product_matrix inferred one degree too
 many for p

The degree of a polynomial vector with (d + 1)^2 terms was computed as d + 1,
so terms past the end of p were read (and clamped to its last element) and the
result had the wrong shape and wrong entries.
---
 src/jaxoplanet/starry/core/polynomials.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/jaxoplanet/starry/core/polynomials.py b/src/jaxoplanet/starry/core/polynomials.py
index 26acbad..505aebd 100644
--- a/src/jaxoplanet/starry/core/polynomials.py
+++ b/src/jaxoplanet/starry/core/polynomials.py
@@ -180,7 +180,7 @@ def polynomial_product_matrix(p, degree):
         Array: The polynomial product matrix.
     """
     p = jnp.array(p)
-    deg_p = int(np.floor(np.sqrt(len(p))))
+    deg_p = int(np.ceil(np.sqrt(len(p)))) - 1
     M = jnp.zeros(
         ((deg_p + degree + 1) * (deg_p + degree + 1), (degree + 1) * (degree + 1))
     )
-- 
2.43.0


From f3ee1f7264744a17c9737219db965adce517730e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:49:31 +0000
Subject: [PATCH 24/43] fix: scale the flux of occulted uniform surfaces by
 their Y00 coefficient

---
 src/jaxoplanet/starry/light_curves.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/jaxoplanet/starry/light_curves.py b/src/jaxoplanet/starry/light_curves.py
index 3bf514c..0d2c914 100644
--- a/src/jaxoplanet/starry/light_curves.py
+++ b/src/jaxoplanet/starry/light_curves.py
@@ -91,7 +91,8 @@ def surface_light_curve(
 
             lc_func = partial(_limb_dark_light_curve, ld_u, order=order)
             lc = lc_func(b, r)
-            return surface.amplitude * (1.0 + jnp.where(b_occ, lc, 0))
+            flux = surface.amplitude * surface.y[(0, 0)]
+            return flux * (1.0 + jnp.where(b_occ, lc, 0))
 
         else:
             theta_z = jnp.arctan2(x, y)
-- 
2.43.0


From a8884ef099038066dc3b9a0caec86045c47af394 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:50:00 +0000
Subject: [PATCH 25/43] fix: nan gradient of uniform surface light curves for
 an exactly centered occultor

---
 src/jaxoplanet/starry/light_curves.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/jaxoplanet/starry/light_curves.py b/src/jaxoplanet/starry/light_curves.py
index 0d2c914..779cad9 100644
--- a/src/jaxoplanet/starry/light_curves.py
+++ b/src/jaxoplanet/starry/light_curves.py
@@ -12,6 +12,7 @@ from jaxoplanet.starry.core.rotation import left_project
 from jaxoplanet.starry.core.solution import rT, solution_vector
 from jaxoplanet.starry.surface import Surface
 from jaxoplanet.starry.system_observable import system_observable
+from jaxoplanet.utils import zero_safe_sqrt
 
 
 def surface_light_curve(
@@ -73,7 +74,7 @@ def surface_light_curve(
 
     # occulting body
     else:
-        b = jnp.sqrt(jnp.square(x) + jnp.square(y))
+        b = zero_safe_sqrt(jnp.square(x) + jnp.square(y))
         b_rot = jnp.logical_or(jnp.greater_equal(b, 1.0 + r), jnp.less_equal(z, 0.0))
         b_occ = jnp.logical_not(b_rot)
 
-- 
2.43.0


From 24b953f881b420a1efef9e24a4fe6a6084770c69 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:54:53 +0000
Subject: [PATCH 26/43] fix: radial velocity of a system without bodies

---
 src/jaxoplanet/starry/doppler.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/jaxoplanet/starry/doppler.py b/src/jaxoplanet/starry/doppler.py
index 713272a..5cd3411 100644
--- a/src/jaxoplanet/starry/doppler.py
+++ b/src/jaxoplanet/starry/doppler.py
@@ -172,6 +172,8 @@ def radial_velocity(system, order=20):
 
     def impl(time):
         rvs = bodies_rv(time)
+        if len(system.bodies) == 0:
+            return rvs
         central_rv = system.radial_velocity(time).magnitude.sum(0)
         rvs = rvs.at[..., 0].set(rvs[..., 0] + central_rv)
         return rvs
-- 
2.43.0


From 124580f86fb883713ed10ad8cc7c53447b9b194a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:43:57 +0000
Subject: [PATCH 27/43] fix: products of spherical harmonic expansions

---
 src/jaxoplanet/starry/ylm.py | 43 +++++++++++++++++++++++++++++++-----
 1 file changed, 37 insertions(+), 6 deletions(-)

diff --git a/src/jaxoplanet/starry/ylm.py b/src/jaxoplanet/starry/ylm.py
index b85cdb2..fa3ba73 100644
--- a/src/jaxoplanet/starry/ylm.py
+++ b/src/jaxoplanet/starry/ylm.py
@@ -183,24 +183,27 @@ def _mul(f: Ylm, g: Ylm) -> Ylm:
     ellmax_f = f.deg
     ellmax_g = g.deg
     ellmax_fg = ellmax_f + ellmax_g
+    f_data = _complex_coefficients(f)
+    g_data = _complex_coefficients(g)
     fg = defaultdict(lambda *_: 0.0)
     m_calculator = Wigner3jCalculator(ellmax_f, ellmax_g)
+    s_calculator = Wigner3jCalculator(ellmax_f, ellmax_g)
     for ell1 in range(ellmax_f + 1):
         sqrt1 = math.sqrt((2 * ell1 + 1) / (4 * math.pi))
         for m1 in range(-ell1, ell1 + 1):
             idx1 = (ell1, m1)
-            if idx1 not in f.data:
+            if idx1 not in f_data:
                 continue
-            sum1 = sqrt1 * f.data[idx1]
+            sum1 = sqrt1 * f_data[idx1]
             for ell2 in range(ellmax_g + 1):
                 sqrt2 = math.sqrt(2 * ell2 + 1)
-                # w3j_s = s_calculator.calculate(ell1, ell2, s_f, s_g)
+                w3j_s = s_calculator.calculate(ell1, ell2, 0, 0)
                 for m2 in range(-ell2, ell2 + 1):
                     idx2 = (ell2, m2)
-                    if idx2 not in g.data:
+                    if idx2 not in g_data:
                         continue
                     w3j_m = m_calculator.calculate(ell1, ell2, m1, m2)
-                    sum2 = sqrt2 * g.data[idx2]
+                    sum2 = sqrt2 * g_data[idx2]
                     m3 = m1 + m2
                     for ell3 in range(
                         max(abs(m3), abs(ell1 - ell2)), min(ell1 + ell2, ellmax_fg) + 1
@@ -212,11 +215,39 @@ def _mul(f: Ylm, g: Ylm) -> Ylm:
                                 math.pow(-1, ell1 + ell2 + ell3 + m3)
                                 * math.sqrt(2 * ell3 + 1)
                                 * w3j_m[ell3]  # Wigner3j(ell1, ell2, ell3, m1, m2, -m3)
+                                * w3j_s[ell3]  # Wigner3j(ell1, ell2, ell3, 0, 0, 0)
                             )
                             * sum1
                             * sum2
                         )
-    return Ylm(fg)
+    return Ylm(_real_coefficients(fg))
+
+
+def _complex_coefficients(y: Ylm) -> dict[tuple[int, int], Array]:
+    """Coefficients of the complex spherical harmonics (with the Condon-Shortley phase)
+    from the coefficients of the real ones."""
+    data = {}
+    for ell, m in {(ell, abs(m)) for ell, m in y.data}:
+        if m == 0:
+            data[(ell, m)] = y.data[(ell, m)]
+        else:
+            cos = y.data.get((ell, m), 0.0) / math.sqrt(2)
+            sin = y.data.get((ell, -m), 0.0) / math.sqrt(2)
+            data[(ell, m)] = (-1) ** m * (cos - 1j * sin)
+            data[(ell, -m)] = cos + 1j * sin
+    return data
+
+
+def _real_coefficients(data: Mapping[tuple[int, int], Array]) -> dict:
+    """Inverse of ``_complex_coefficients``"""
+    res = {}
+    for (ell, m), coeff in sorted(data.items(), key=lambda item: item[0]):
+        if m == 0:
+            res[(ell, m)] = jnp.real(coeff)
+        elif m > 0:
+            res[(ell, m)] = (-1) ** m * math.sqrt(2) * jnp.real(coeff)
+            res[(ell, -m)] = -((-1) ** m) * math.sqrt(2) * jnp.imag(coeff)
+    return res
 
 
 def Bp(ydeg, npts: int = 1000, eps: float = 1e-9, smoothing=None):
-- 
2.43.0


From 31727b73c1f18ad768a8a949a20bfe55fda305ab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:43:57 +0000
Subject: [PATCH 28/43] fix: longitude and inclination of the intensity of a
 surface

---
 src/jaxoplanet/starry/surface.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/jaxoplanet/starry/surface.py b/src/jaxoplanet/starry/surface.py
index 4c197b4..ce955c5 100644
--- a/src/jaxoplanet/starry/surface.py
+++ b/src/jaxoplanet/starry/surface.py
@@ -215,13 +215,13 @@ class Surface(eqx.Module):
         Returns:
             float: intensity of the map at the given latitude and longitude
         """
-        lon = lon + jnp.pi / 2  # convention, 0 lon faces the observer
+        lon = lon - jnp.pi / 2  # convention, 0 lon faces the observer
         lat = jnp.pi / 2 - lat  # convention, latitude 0 is equator
         x = jnp.sin(lat) * jnp.cos(lon)
         y = jnp.sin(lat) * jnp.sin(lon)
         z = jnp.cos(lat) * jnp.ones_like(x)
 
-        axis = full_rotation_axis_angle(self.inc - jnp.pi / 2, self.obl, 0.0, 0.0)
+        axis = full_rotation_axis_angle(self.inc + jnp.pi / 2, self.obl, 0.0, 0.0)
         axis = jnp.array(axis[0:3]) * axis[-1]
         rotation = Rotation.from_rotvec(axis)
         x, y, z = rotation.apply(jnp.array([x, y, z]).T).T
-- 
2.43.0


From 5272cd8f939b5ae0d24453712331839c1242019d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:43:57 +0000
Subject: [PATCH 29/43] fix: differential rotation in the radial velocity of
 surfaces

---
 src/jaxoplanet/starry/doppler.py | 4 ++--
 src/jaxoplanet/starry/surface.py | 4 ++--
 2 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/jaxoplanet/starry/doppler.py b/src/jaxoplanet/starry/doppler.py
index 5cd3411..c3ba0f4 100644
--- a/src/jaxoplanet/starry/doppler.py
+++ b/src/jaxoplanet/starry/doppler.py
@@ -27,7 +27,7 @@ def rv_map_expansion(veq=None, inc=None, obl=None, alpha=None):
     sq3 = jnp.sqrt(3)
 
     if veq is None:
-        return jnp.array([0.0, 0.0, 0.0, 0.0])
+        return jnp.zeros(4 if alpha is None else 16)
 
     if alpha is None:
         return jnp.array([0.0, veq * sq3 * B / 3, 0, veq * sq3 * A / 3]) * jnp.pi
@@ -146,7 +146,7 @@ def surface_radial_velocity(
 
     # the radial velocity map
     y_rv = rv_map_expansion(
-        inc=surface._inc, obl=surface._obl, veq=surface.veq, alpha=None
+        inc=surface._inc, obl=surface._obl, veq=surface.veq, alpha=surface.shear
     )
 
     # rotated to account for the occultor
diff --git a/src/jaxoplanet/starry/surface.py b/src/jaxoplanet/starry/surface.py
index ce955c5..6807600 100644
--- a/src/jaxoplanet/starry/surface.py
+++ b/src/jaxoplanet/starry/surface.py
@@ -159,7 +159,7 @@ class Surface(eqx.Module):
     @property
     def vdeg(self) -> int:
         if self.shear is not None:
-            return
+            return 3
         else:
             return 1
 
@@ -179,7 +179,7 @@ class Surface(eqx.Module):
 
         if rv:
             y_rv = starry.doppler.rv_map_expansion(
-                inc=self._inc, obl=self._obl, veq=self.veq, alpha=None
+                inc=self._inc, obl=self._obl, veq=self.veq, alpha=self.shear
             )
             p_rv = Pijk.from_dense(
                 jax.experimental.sparse.BCOO.from_scipy_sparse(A1(self.vdeg)).todense()
-- 
2.43.0


From 954fb11d3b8b6e65b1db4f737404038fc141032b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:43:57 +0000
Subject: [PATCH 30/43] fix: nan gradients for occultors exactly behind or
 concentric with a surface

---
 src/jaxoplanet/starry/doppler.py      | 6 ++++--
 src/jaxoplanet/starry/light_curves.py | 3 ++-
 2 files changed, 6 insertions(+), 3 deletions(-)

diff --git a/src/jaxoplanet/starry/doppler.py b/src/jaxoplanet/starry/doppler.py
index c3ba0f4..44adf59 100644
--- a/src/jaxoplanet/starry/doppler.py
+++ b/src/jaxoplanet/starry/doppler.py
@@ -10,6 +10,7 @@ from jaxoplanet.starry.core.rotation import dot_rz, left_project
 from jaxoplanet.starry.core.solution import rT, solution_vector
 from jaxoplanet.starry.surface import Surface
 from jaxoplanet.starry.system_observable import system_observable
+from jaxoplanet.utils import zero_safe_sqrt
 
 
 def rv_map_expansion(veq=None, inc=None, obl=None, alpha=None):
@@ -95,10 +96,11 @@ def surface_radial_velocity(
 
     # occulting body
     else:
-        b = jnp.sqrt(jnp.square(x) + jnp.square(y))
+        b = zero_safe_sqrt(jnp.square(x) + jnp.square(y))
         b_rot = jnp.logical_or(jnp.greater_equal(b, 1.0 + r), jnp.less_equal(z, 0.0))
         b_occ = jnp.logical_not(b_rot)
-        theta_z = jnp.arctan2(x, y)
+        # the position angle only matters (and is only differentiable) in occultation
+        theta_z = jnp.arctan2(jnp.where(b_rot, 0.0, x), jnp.where(b_rot, 1.0, y))
 
         # trick to avoid nan `x=jnp.where...` grad caused by nan sT
         r = jnp.where(b_rot, 1.0, r)
diff --git a/src/jaxoplanet/starry/light_curves.py b/src/jaxoplanet/starry/light_curves.py
index 779cad9..843eb73 100644
--- a/src/jaxoplanet/starry/light_curves.py
+++ b/src/jaxoplanet/starry/light_curves.py
@@ -96,7 +96,8 @@ def surface_light_curve(
             return flux * (1.0 + jnp.where(b_occ, lc, 0))
 
         else:
-            theta_z = jnp.arctan2(x, y)
+            # the position angle only matters (and is only differentiable) in occultation
+            theta_z = jnp.arctan2(jnp.where(b_rot, 0.0, x), jnp.where(b_rot, 1.0, y))
             sT = solution_vector(total_deg, order=order)(b, r)
 
         if total_deg > 0:
-- 
2.43.0


From 3aa2ff0a27d922575adecd42486fb3f4af2e1b68 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:43:57 +0000
Subject: [PATCH 31/43] fix: gradients with respect to inclination and
 obliquity of map projections

---
 src/jaxoplanet/starry/core/rotation.py | 32 ++++++++++++++++++++------
 1 file changed, 25 insertions(+), 7 deletions(-)

diff --git a/src/jaxoplanet/starry/core/rotation.py b/src/jaxoplanet/starry/core/rotation.py
index 1be55b0..fb3dd39 100644
--- a/src/jaxoplanet/starry/core/rotation.py
+++ b/src/jaxoplanet/starry/core/rotation.py
@@ -208,10 +208,12 @@ def left_project(
     m_theta = -theta if theta is not None else theta
     m_theta_z = -theta_z if theta_z is not None else theta_z
 
-    axis_x, axis_y, axis_z, angle = sky_projection_axis_angle(inc, obl)
+    m_obl = -obl if obl is not None else obl
+
     y = dot_rotation_matrix(ydeg, 1.0, None, None, -0.5 * jnp.pi)(y)
     y = dot_rotation_matrix(ydeg, None, None, 1.0, m_theta)(y)
-    y = dot_rotation_matrix(ydeg, axis_x, axis_y, axis_z, angle)(y)
+    y = dot_rx(ydeg, inc)(y)
+    y = dot_rotation_matrix(ydeg, None, None, 1.0, m_obl)(y)
     y = dot_rotation_matrix(ydeg, None, None, 1.0, m_theta_z)(y)
     return y
 
@@ -237,13 +239,11 @@ def right_project(
     Returns:
         Array: rotated spherical harmonic map coefficients
     """
-    axis_x, axis_y, axis_z, angle = sky_projection_axis_angle(inc, obl)
-    m_axis_x = -axis_x if axis_x is not None else axis_x
-    m_axis_y = -axis_y if axis_y is not None else axis_y
-    m_axis_z = -axis_z if axis_z is not None else axis_z
+    m_inc = -inc if inc is not None else inc
 
     y = dot_rotation_matrix(ydeg, None, None, 1.0, theta_z)(y)
-    y = dot_rotation_matrix(ydeg, m_axis_x, m_axis_y, m_axis_z, angle)(y)
+    y = dot_rotation_matrix(ydeg, None, None, 1.0, obl)(y)
+    y = dot_rx(ydeg, m_inc)(y)
     y = dot_rotation_matrix(ydeg, None, None, 1.0, theta)(y)
     y = dot_rotation_matrix(ydeg, 1.0, None, None, 0.5 * jnp.pi)(y)
     return y
@@ -508,6 +508,24 @@ def dot_rz(deg, theta):
     return impl
 
 
+def dot_rx(deg, theta):
+    """Special case for rotation only around x axis
+
+    Unlike an axis-angle (or Euler angle) representation of the rotation, this is
+    differentiable for all angles.
+    """
+
+    if theta is None:
+        return lambda M: M
+
+    def do_dot(M):
+        M = dot_rotation_matrix(deg, 0.0, 1.0, None, 0.5 * jnp.pi)(M)
+        M = dot_rotation_matrix(deg, None, None, 1.0, theta)(M)
+        return dot_rotation_matrix(deg, 0.0, 1.0, None, -0.5 * jnp.pi)(M)
+
+    return do_dot
+
+
 def fast_direct_left_project(ydeg, inc, obl, theta, theta_z, y):
 
     def euler(x, y, z, theta):
-- 
2.43.0


From 9ecca72ad021baa0be390740c317f20e9e0da4e0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:06:02 +0000
Subject: [PATCH 32/43] fix: forward- and reverse-mode derivatives of the
 polynomial basis (Surface.intensity)

---
 src/jaxoplanet/starry/core/basis.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/jaxoplanet/starry/core/basis.py b/src/jaxoplanet/starry/core/basis.py
index 3d8e323..20bfcb6 100644
--- a/src/jaxoplanet/starry/core/basis.py
+++ b/src/jaxoplanet/starry/core/basis.py
@@ -369,7 +369,7 @@ def poly_basis(deg):
 
         p = jnp.array(xarr) * jnp.array(yarr)
         if len(inds):
-            return p.at[np.array(inds)].multiply(z)
+            return p.at[np.array(inds)].multiply(z, unique_indices=True)
         else:
             return p
 
-- 
2.43.0


From d9ee1fe908b10ba225eaf6bea700c3ed813f019b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:06:02 +0000
Subject: [PATCH 33/43] fix: Ylm.from_limb_darkening with traced limb darkening
 coefficients

---
 src/jaxoplanet/starry/ylm.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/jaxoplanet/starry/ylm.py b/src/jaxoplanet/starry/ylm.py
index fa3ba73..27f2029 100644
--- a/src/jaxoplanet/starry/ylm.py
+++ b/src/jaxoplanet/starry/ylm.py
@@ -165,9 +165,9 @@ class Ylm(eqx.Module):
         Spherical harmonics coefficients from limb darkening coefficients.
         """
         deg = len(u)
-        _u = np.array([1, *u])
+        _u = jnp.array([1, *u])
         pu = _u @ basis.U(deg)
-        yu = np.array(np.linalg.inv(basis.A1(deg).todense()) @ pu)
+        yu = np.linalg.inv(basis.A1(deg).todense()) @ pu
         yu = Ylm.from_dense(yu.flatten(), normalize=False)
         norm = 1 / (Pijk.from_dense(pu, degree=deg).tosparse() @ solution.rT(deg))
         return yu * norm
-- 
2.43.0


From cfe1a16bb1f31e842f041f525743d783a057726f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:06:02 +0000
Subject: [PATCH 34/43] fix: ylm_spot constructed inside jit, vmap or grad

---
 src/jaxoplanet/starry/ylm.py | 14 +++++++-------
 1 file changed, 7 insertions(+), 7 deletions(-)

diff --git a/src/jaxoplanet/starry/ylm.py b/src/jaxoplanet/starry/ylm.py
index 27f2029..f5434b4 100644
--- a/src/jaxoplanet/starry/ylm.py
+++ b/src/jaxoplanet/starry/ylm.py
@@ -263,18 +263,18 @@ def Bp(ydeg, npts: int = 1000, eps: float = 1e-9, smoothing=None):
         else:
             smoothing = 2.0 / ydeg
 
-    theta = jnp.linspace(0, jnp.pi, npts)
-    cost = jnp.cos(theta)
-    B = jnp.hstack(
+    theta = np.linspace(0, np.pi, npts)
+    cost = np.cos(theta)
+    B = np.hstack(
         [
-            jnp.sqrt(2 * l + 1) * LegendreP(l)(cost).reshape(-1, 1)
+            np.sqrt(2 * l + 1) * LegendreP(l)(cost).reshape(-1, 1)
             for l in range(ydeg + 1)
         ]
     )
-    _Bp = jnp.linalg.solve(B.T @ B + eps * jnp.eye(ydeg + 1), B.T)
-    l = jnp.arange(ydeg + 1)
+    _Bp = np.linalg.solve(B.T @ B + eps * np.eye(ydeg + 1), B.T)
+    l = np.arange(ydeg + 1)
     indices = l * (l + 1)
-    S = jnp.exp(-0.5 * indices * smoothing**2)
+    S = np.exp(-0.5 * indices * smoothing**2)
     return (S[:, None] * _Bp, theta, indices)
 
 
-- 
2.43.0


From 1a27c15488ec658754ea71bf0fd984ca9bf915db Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:19:14 +0000
Subject: [PATCH 35/43] fix: gradient of ylm_spot is nan when the spot profile
 saturates

The gradient of 1/(1 + exp(-z)) is nan once exp(-z) overflows (spots of
radius above 0.3 in single precision, 2.4 in double precision).
---
 src/jaxoplanet/starry/ylm.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/jaxoplanet/starry/ylm.py b/src/jaxoplanet/starry/ylm.py
index f5434b4..8c3a66f 100644
--- a/src/jaxoplanet/starry/ylm.py
+++ b/src/jaxoplanet/starry/ylm.py
@@ -284,7 +284,7 @@ def spot_profile(theta, radius, spot_fac=300):
 
     """
     z = spot_fac * (theta - radius)
-    return 1 / (1 + jnp.exp(-z)) - 1
+    return jax.nn.sigmoid(z) - 1
 
 
 def ylm_spot(ydeg: int, npts=300, spot_fac=300) -> callable:
-- 
2.43.0


From df792107d037766896d26e05ea5dec0f74c4d667 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:19:14 +0000
Subject: [PATCH 36/43] fix: gradients of ylm_spot with respect to a latitude
 or longitude of 0 or pi

The axis-angle rotation matrices have zero (or opposite) derivatives with
respect to an angle of 0 or pi; rotate with dot_rx and dot_ry instead.
---
 src/jaxoplanet/starry/core/rotation.py | 18 ++++++++++++++++++
 src/jaxoplanet/starry/ylm.py           |  6 +++---
 2 files changed, 21 insertions(+), 3 deletions(-)

diff --git a/src/jaxoplanet/starry/core/rotation.py b/src/jaxoplanet/starry/core/rotation.py
index fb3dd39..9bab515 100644
--- a/src/jaxoplanet/starry/core/rotation.py
+++ b/src/jaxoplanet/starry/core/rotation.py
@@ -526,6 +526,24 @@ def dot_rx(deg, theta):
     return do_dot
 
 
+def dot_ry(deg, theta):
+    """Special case for rotation only around y axis
+
+    Unlike an axis-angle (or Euler angle) representation of the rotation, this is
+    differentiable for all angles.
+    """
+
+    if theta is None:
+        return lambda M: M
+
+    def do_dot(M):
+        M = dot_rotation_matrix(deg, 1.0, 0.0, None, -0.5 * jnp.pi)(M)
+        M = dot_rotation_matrix(deg, None, None, 1.0, theta)(M)
+        return dot_rotation_matrix(deg, 1.0, 0.0, None, 0.5 * jnp.pi)(M)
+
+    return do_dot
+
+
 def fast_direct_left_project(ydeg, inc, obl, theta, theta_z, y):
 
     def euler(x, y, z, theta):
diff --git a/src/jaxoplanet/starry/ylm.py b/src/jaxoplanet/starry/ylm.py
index 8c3a66f..8c8b44e 100644
--- a/src/jaxoplanet/starry/ylm.py
+++ b/src/jaxoplanet/starry/ylm.py
@@ -49,7 +49,7 @@ from scipy.special import legendre as LegendreP
 
 from jaxoplanet.starry.core import basis, solution
 from jaxoplanet.starry.core.polynomials import Pijk
-from jaxoplanet.starry.core.rotation import dot_rotation_matrix
+from jaxoplanet.starry.core.rotation import dot_rx, dot_ry
 from jaxoplanet.starry.core.wigner3j import Wigner3jCalculator
 from jaxoplanet.types import Array
 
@@ -320,8 +320,8 @@ def ylm_spot(ydeg: int, npts=300, spot_fac=300) -> callable:
         y = jnp.zeros((ydeg + 1) * (ydeg + 1))
         y = y.at[indices].set(B @ b * contrast)
         y = y.at[0].set(y[0] + 1.0)
-        y = dot_rotation_matrix(ydeg, 1.0, 0.0, 0.0, lat)(y)
-        y = dot_rotation_matrix(ydeg, 0.0, 1.0, 0.0, -lon)(y)
+        y = dot_rx(ydeg, lat)(y)
+        y = dot_ry(ydeg, -lon)(y)
 
         return Ylm.from_dense(y, normalize=False)
 
-- 
2.43.0


From 8882b08a43367fcb0722ac752e66807f0949921e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:04:42 +0000
Subject: [PATCH 37/43] fix: multiprecision dot_rotation_matrix replaced the
 first coefficient by 1

---
 src/jaxoplanet/starry/multiprecision/rotation.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/jaxoplanet/starry/multiprecision/rotation.py b/src/jaxoplanet/starry/multiprecision/rotation.py
index 54637a0..fb22080 100644
--- a/src/jaxoplanet/starry/multiprecision/rotation.py
+++ b/src/jaxoplanet/starry/multiprecision/rotation.py
@@ -182,7 +182,7 @@ def dot_rotation_matrix(ydeg, u, theta, rotation_matrices=None):
         result = []
         for l in range(ydeg + 1):
             if l == 0:
-                result.append(mp.matrix([1]))
+                result.append(mp.matrix([M[0]]))
             else:
                 result.append(
                     mp.matrix(M[l * l : l * l + 2 * l + 1]).T @ rotation_matrices[l]
-- 
2.43.0


From 06f0164c35f37b25bbea39a6e6346fabbc110a6e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:04:42 +0000
Subject: [PATCH 38/43] fix: multiprecision left_project raised TypeError for a
 non-zero theta_z

---
 src/jaxoplanet/starry/multiprecision/rotation.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/jaxoplanet/starry/multiprecision/rotation.py b/src/jaxoplanet/starry/multiprecision/rotation.py
index fb22080..be439b2 100644
--- a/src/jaxoplanet/starry/multiprecision/rotation.py
+++ b/src/jaxoplanet/starry/multiprecision/rotation.py
@@ -211,7 +211,7 @@ def left_project(deg, inc, obl, theta, theta_z, x):
     )(x)
 
     if theta_z != 0:
-        x = dot_rotation_matrix(deg, 0, 0, 1.0, -theta_z)(x)
+        x = dot_rotation_matrix(deg, (0.0, 0.0, 1.0), -theta_z)(x)
     return x.T
 
 
-- 
2.43.0


From 8122fb6ff11ee7847e6c27698f56718eb91e487e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:04:42 +0000
Subject: [PATCH 39/43] fix: multiprecision flux ignored limb darkening out of
 occultation and failed without rotation

---
 src/jaxoplanet/starry/multiprecision/flux.py | 50 ++++++++++++--------
 1 file changed, 29 insertions(+), 21 deletions(-)

diff --git a/src/jaxoplanet/starry/multiprecision/flux.py b/src/jaxoplanet/starry/multiprecision/flux.py
index d03c3e4..177a3c6 100644
--- a/src/jaxoplanet/starry/multiprecision/flux.py
+++ b/src/jaxoplanet/starry/multiprecision/flux.py
@@ -49,26 +49,7 @@ def flux(ydeg=0, udeg=0, inc=mp.pi / 2, obl=0.0, cache=None):
         y_rotated = dot_rotation_matrix(ydeg, None, None, R_inc)(y_rotated)
         return y_rotated
 
-    def rot_flux(y, phi):
-        y = mp.matrix(y.tolist())
-        y_rotated = rotate_y(y, phi)
-        return ((_A1 @ y_rotated).T @ _rT)[0]
-
-    def occ_flux(y, b, r, phi=0.0, u=None, rotate=True):
-        xo = 0.0
-        yo = b
-        theta_z = mp.atan2(xo, yo)
-        _sT = get_sT(deg, b, r, cache=cache)
-        x = _sT.T @ _A2
-
-        if ydeg > 0:
-            y = mp.matrix(y.tolist())
-            if rotate:
-                y_rotated = rotate_y(y, phi)
-                y_rotated = dot_rz(ydeg, theta_z)(y_rotated)
-        else:
-            y_rotated = mp.matrix([1])
-
+    def map_flux(y_rotated, x, u=None):
         py = (_A1 @ y_rotated).T
 
         if udeg > 0:
@@ -84,13 +65,40 @@ def flux(ydeg=0, udeg=0, inc=mp.pi / 2, obl=0.0, cache=None):
             norm = 1
         return norm * py @ x.T
 
+    def rot_flux(y, phi=0.0, u=None, rotate=True):
+        if ydeg > 0:
+            y_rotated = mp.matrix(y.tolist())
+            if rotate:
+                y_rotated = rotate_y(y_rotated, phi)
+        else:
+            y_rotated = mp.matrix([1])
+
+        return map_flux(y_rotated, _rT.T, u=u)
+
+    def occ_flux(y, b, r, phi=0.0, u=None, rotate=True):
+        xo = 0.0
+        yo = b
+        theta_z = mp.atan2(xo, yo)
+        _sT = get_sT(deg, b, r, cache=cache)
+        x = _sT.T @ _A2
+
+        if ydeg > 0:
+            y_rotated = mp.matrix(y.tolist())
+            if rotate:
+                y_rotated = rotate_y(y_rotated, phi)
+                y_rotated = dot_rz(ydeg, theta_z)(y_rotated)
+        else:
+            y_rotated = mp.matrix([1])
+
+        return map_flux(y_rotated, x, u=u)
+
     def impl(b, r, y=(), phi=0.0, u=(), rotate=True):
         assert len(u) == udeg, "u must have length udeg"
         if ydeg > 0:
             assert len(y) == (ydeg + 1) ** 2, "y must have length (ydeg + 1) ** 2"
 
         if abs(b) >= (r + 1):
-            return rot_flux(y, phi)
+            return rot_flux(y, phi, u=u, rotate=rotate)[0]
         elif r > 1 and abs(b) <= (r - 1):
             return mp.mpf(0.0)
         else:
-- 
2.43.0


From 6fda973f11fb361191d83aef3bd48141218e729d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:59:14 +0000
Subject: [PATCH 40/43] fix: show_surface draws the graticule on the axes it is
 given

---
 src/jaxoplanet/starry/utils.py         | 12 ++++++++----
 src/jaxoplanet/starry/visualization.py |  1 +
 2 files changed, 9 insertions(+), 4 deletions(-)

diff --git a/src/jaxoplanet/starry/utils.py b/src/jaxoplanet/starry/utils.py
index 4c636d4..8415ab0 100644
--- a/src/jaxoplanet/starry/utils.py
+++ b/src/jaxoplanet/starry/utils.py
@@ -113,10 +113,14 @@ def graticule(
     white_contour=True,
     radius: float = 1.0,
     n=6,
+    ax=None,
     **kwargs,
 ):
     import matplotlib.pyplot as plt
 
+    if ax is None:
+        ax = plt.gca()
+
     kwargs.setdefault("c", kwargs.pop("color", "k"))
     kwargs.setdefault("lw", kwargs.pop("linewidth", 1))
     kwargs.setdefault("alpha", 0.3)
@@ -124,16 +128,16 @@ def graticule(
     # plot lines
     lat, lon = lon_lat_lines(pts=pts, radius=radius, n=n)
     lat = rotate_lines(lat, inc, obl, theta)
-    plot_lines(lat, **kwargs)
+    plot_lines(lat, ax=ax, **kwargs)
     lon = rotate_lines(lon, inc, obl, theta)
-    plot_lines(lon, **kwargs)
+    plot_lines(lon, ax=ax, **kwargs)
     theta = np.linspace(0, 2 * np.pi, 2 * pts)
 
     # contour
     sqrt_radius = radius
-    plt.plot(sqrt_radius * np.cos(theta), sqrt_radius * np.sin(theta), **kwargs)
+    ax.plot(sqrt_radius * np.cos(theta), sqrt_radius * np.sin(theta), **kwargs)
     if white_contour:
-        plt.plot(sqrt_radius * np.cos(theta), sqrt_radius * np.sin(theta), c="w", lw=3)
+        ax.plot(sqrt_radius * np.cos(theta), sqrt_radius * np.sin(theta), c="w", lw=3)
 
 
 # s2fft have the same but this one is jitabel
diff --git a/src/jaxoplanet/starry/visualization.py b/src/jaxoplanet/starry/visualization.py
index 9b2832d..0c079a9 100644
--- a/src/jaxoplanet/starry/visualization.py
+++ b/src/jaxoplanet/starry/visualization.py
@@ -93,6 +93,7 @@ def show_surface(
             radius=radius,
             n=n,
             white_contour=white_contour,
+            ax=ax,
         )
     ax.set_xlim(-1.02, 1.02)
     ax.set_ylim(-1.02, 1.02)
-- 
2.43.0


From fdd9162203b7ff88f53d8d9886e915b4c5d1afc0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:59:14 +0000
Subject: [PATCH 41/43] fix: show_surface accepts a body without a graticule

---
 src/jaxoplanet/starry/visualization.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/jaxoplanet/starry/visualization.py b/src/jaxoplanet/starry/visualization.py
index 0c079a9..cd16d5e 100644
--- a/src/jaxoplanet/starry/visualization.py
+++ b/src/jaxoplanet/starry/visualization.py
@@ -60,7 +60,7 @@ def show_surface(
             radius = ylm_pijk_surface_body.radius.magnitude
         else:
             radius = 1.0 if radius is None else radius
-        n = int(np.ceil(n * np.cbrt(radius)))
+        n = int(np.ceil(n * np.cbrt(radius))) if n is not None else None
     # import Ylm leads to circular import
     elif isinstance(ylm_pijk_surface_body, Ylm):
         surface = Surface(y=ylm_pijk_surface_body)
-- 
2.43.0


From 998fe20a9e75a85e093974d1a895d693f84bca73 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:59:14 +0000
Subject: [PATCH 42/43] fix: show_surface scales the image with the radius of
 the body, like its graticule

---
 src/jaxoplanet/starry/visualization.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/src/jaxoplanet/starry/visualization.py b/src/jaxoplanet/starry/visualization.py
index cd16d5e..4e64d92 100644
--- a/src/jaxoplanet/starry/visualization.py
+++ b/src/jaxoplanet/starry/visualization.py
@@ -77,7 +77,7 @@ def show_surface(
         radius = 1.0 if radius is None else radius
 
     phase = theta + (surface.phase if include_phase else 0.0)
-    extent = np.array([-1, 1, -1, 1])
+    extent = radius * np.array([-1, 1, -1, 1])
 
     im = ax.imshow(
         surface.render(phase, res, rv=rv),
@@ -95,8 +95,9 @@ def show_surface(
             white_contour=white_contour,
             ax=ax,
         )
-    ax.set_xlim(-1.02, 1.02)
-    ax.set_ylim(-1.02, 1.02)
+    limit = 1.02 * max(1.0, radius)
+    ax.set_xlim(-limit, limit)
+    ax.set_ylim(-limit, limit)
     ax.axis(False)
 
     if return_im:
-- 
2.43.0


From adc6d6c5a4f68584ce8241aca9a2ff2b75c94187 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:27:15 +0000
Subject: [PATCH 43/43] fix: do not treat rotations of up to half a degree as
 no rotation in full_rotation_axis_angle

---
 src/jaxoplanet/starry/core/rotation.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/jaxoplanet/starry/core/rotation.py b/src/jaxoplanet/starry/core/rotation.py
index 9bab515..612363a 100644
--- a/src/jaxoplanet/starry/core/rotation.py
+++ b/src/jaxoplanet/starry/core/rotation.py
@@ -123,7 +123,7 @@ def full_rotation_axis_angle(
     denominator = jnp.sqrt(1 - 0.5 * arg**2)
 
     farg = f * arg
-    zero_angle = jnp.allclose(farg, 1.0, atol=get_dtype_eps(farg))
+    zero_angle = jnp.allclose(farg, 1.0, rtol=0.0, atol=10 * get_dtype_eps(farg))
     angle = jnp.where(zero_angle, 0.0, 2 * jnp.arccos(farg))
 
     non_zero_angle = jnp.logical_not(zero_angle)
-- 
2.43.0

