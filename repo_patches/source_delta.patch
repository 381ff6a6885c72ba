From f78dd4372dd789cfe0e41f4dcf9eadb8e96b0e8b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:12:33 +0000
Subject: [PATCH 01/32] fix: transit anomaly for an argument of periastron of
 exactly -pi/2

With sin(omega) = -1 and cos(omega) = 0 both arguments of the half-angle arctan2
vanished and the body was placed behind the central at the transit time.
---
 src/jaxoplanet/orbits/keplerian.py | 7 +++----
 1 file changed, 3 insertions(+), 4 deletions(-)

diff --git a/src/jaxoplanet/orbits/keplerian.py b/src/jaxoplanet/orbits/keplerian.py
index 77fc96a..abb6065 100644
--- a/src/jaxoplanet/orbits/keplerian.py
+++ b/src/jaxoplanet/orbits/keplerian.py
@@ -321,10 +321,9 @@ class OrbitalBody(eqx.Module):
         else:
             assert self.sin_omega_peri is not None
             assert self.cos_omega_peri is not None
-            opsw = 1 + self.sin_omega_peri
-            E0 = 2 * jnpu.arctan2(
-                jnpu.sqrt(1 - self.eccentricity) * self.cos_omega_peri,
-                jnpu.sqrt(1 + self.eccentricity) * opsw,
+            E0 = jnpu.arctan2(
+                jnpu.sqrt(1 - self.eccentricity**2) * self.cos_omega_peri,
+                self.eccentricity + self.sin_omega_peri,
             )
             M0 = E0 - self.eccentricity * jnpu.sin(E0)
 
-- 
2.43.0


From 9c0e173e1d1f64b180f6434bcaccfa1d02e0947a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:12:33 +0000
Subject: [PATCH 02/32] fix: keep the exposure time stencil centred for few
 samples

The trapezoid and Simpson stencils with num_samples < 2 collapsed to a single
sample at the start of the exposure.
---
 src/jaxoplanet/light_curves/transforms.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/jaxoplanet/light_curves/transforms.py b/src/jaxoplanet/light_curves/transforms.py
index 6c2a0e9..240b6b3 100644
--- a/src/jaxoplanet/light_curves/transforms.py
+++ b/src/jaxoplanet/light_curves/transforms.py
@@ -73,6 +73,9 @@ def integrate(
     # Ensure 'num_samples' is an odd number
     num_samples = int(num_samples)
     num_samples += 1 - num_samples % 2
+    if order > 0:
+        # The trapezoid and Simpson's rules need at least one interval
+        num_samples = max(num_samples, 3)
     stencil = jnp.ones(num_samples)
 
     # Construct exposure time integration stencil
-- 
2.43.0


From eaea30c4d4cbb0000d815239a938bfce9a02df24 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:12:46 +0000
Subject: [PATCH 03/32] fix: ObjectStack loop fallback follows vmap for
 negative axes and bad sizes

A negative in_axes mapped over axis 0, and mapped arguments of the wrong length
were silently clamped or truncated, unlike the stacked jax.vmap path.
---
 src/jaxoplanet/object_stack.py | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/src/jaxoplanet/object_stack.py b/src/jaxoplanet/object_stack.py
index 6668edf..e5a6b42 100644
--- a/src/jaxoplanet/object_stack.py
+++ b/src/jaxoplanet/object_stack.py
@@ -98,6 +98,13 @@ class ObjectStack(eqx.Module, Generic[Obj]):
             in_axes_flat = jax.api_util.flatten_axes(  # type: ignore
                 "body_vmap in_axes", in_tree, in_axes_
             )
+            for arg, axis in zip(args_flat, in_axes_flat, strict=False):
+                if axis is not None and jnpu.shape(arg)[axis] != len(self):
+                    raise ValueError(
+                        "Mapped arguments must have one element per object along the "
+                        f"mapped axis; expected {len(self)} along axis {axis}, but "
+                        f"got shape {jnpu.shape(arg)}"
+                    )
 
             # Then loop over the bodies and accumulate the function results
             results = []
@@ -130,6 +137,7 @@ def index_helper(n, arg, axis):
     if axis is None:
         return arg
     else:
+        axis = axis + jnpu.ndim(arg) if axis < 0 else axis
         idx = (slice(None),) * axis + (n,)
         return arg[idx]
 
-- 
2.43.0


From da6f41196bb3ade880b03cefa58b57bddff5ad24 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:15:51 +0000
Subject: [PATCH 04/32] fix: body velocities honour the body's own radial
 velocity semi-amplitude

OrbitalBody.velocity and relative_velocity returned the central's velocity when the
semi-amplitude was stored on the body instead of being passed to the method.
---
 src/jaxoplanet/orbits/keplerian.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/jaxoplanet/orbits/keplerian.py b/src/jaxoplanet/orbits/keplerian.py
index abb6065..94df5da 100644
--- a/src/jaxoplanet/orbits/keplerian.py
+++ b/src/jaxoplanet/orbits/keplerian.py
@@ -471,6 +471,8 @@ class OrbitalBody(eqx.Module):
             The components of the velocity vector at ``t`` in units of
             ``R_sun/day``.
         """
+        if semiamplitude is None:
+            semiamplitude = self.radial_velocity_semiamplitude
         if semiamplitude is None:
             mass: Quantity = -self.central.mass  # type: ignore
             return self._get_position_and_velocity(t, mass=mass)[1]
@@ -514,6 +516,8 @@ class OrbitalBody(eqx.Module):
             The components of the velocity vector at ``t`` in units of
             ``M_sun/day``.
         """
+        if semiamplitude is None:
+            semiamplitude = self.radial_velocity_semiamplitude
         if semiamplitude is None:
             mass: Quantity = -self.total_mass  # type: ignore
             return self._get_position_and_velocity(t, mass=mass)[1]
-- 
2.43.0


From 15de895adf1f07c4de3df4f199a4ae89ece04bfa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:35:21 +0000
Subject: [PATCH 05/32] fix: limb darkening line integrand on the limb at
 grazing contact

The guard for z^2 close to zero replaced z^3 by one instead of zero, so that
within a few ulps of contact the flux was off by 1e-9 and its gradient by 1e4.
---
 src/jaxoplanet/core/limb_dark.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/jaxoplanet/core/limb_dark.py b/src/jaxoplanet/core/limb_dark.py
index f6bb92b..8770f5b 100644
--- a/src/jaxoplanet/core/limb_dark.py
+++ b/src/jaxoplanet/core/limb_dark.py
@@ -167,7 +167,7 @@ def p_integral(
         z2 = 1 - omz2
         m = jnp.less(z2, 10 * jnp.finfo(omz2.dtype).eps)
         z2 = jnp.where(m, jnp.ones_like(z2), z2)
-        z3 = z2 * zero_safe_sqrt(z2)
+        z3 = jnp.where(m, jnp.zeros_like(z2), z2 * zero_safe_sqrt(z2))
         cond = jnp.less(omz2, 10 * jnp.finfo(omz2.dtype).eps)
         omz2 = jnp.where(cond, jnp.ones_like(z2), omz2)
         result = 2 * r * (r - b * c) * (1 - z3) / (3 * omz2)
-- 
2.43.0


From 96085db777cc9874d85200b8cd780993fcc1daf4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:36:13 +0000
Subject: [PATCH 06/32] fix: limb darkened flux and gradients when the discs
 coincide

For b = 0 and r = 1 both arguments of the arctangents vanish: the linear limb
darkening term was not zero under full coverage and the gradients were NaN.
---
 src/jaxoplanet/core/limb_dark.py | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/src/jaxoplanet/core/limb_dark.py b/src/jaxoplanet/core/limb_dark.py
index 8770f5b..d477076 100644
--- a/src/jaxoplanet/core/limb_dark.py
+++ b/src/jaxoplanet/core/limb_dark.py
@@ -74,7 +74,8 @@ def solution_vector(l_max: int, order: int = 10) -> Callable[[Array, Array], Arr
         if l_max >= 1:
             P: Array = p_integral(order, l_max, b_, r, b2, r2, kappa0)
             P = jnp.where(cond, jnp.zeros_like(P), P)
-            s.append(-P[:1] - 2 * (kappa1 - jnp.pi) / 3)
+            s1 = -P[:1] - 2 * (kappa1 - jnp.pi) / 3
+            s.append(jnp.where(full_occ, jnp.zeros_like(s1), s1))
             if l_max >= 2:
                 s.append(s2[None])  # type: ignore
             if l_max >= 3:
@@ -105,7 +106,13 @@ def kappas(b: Array, r: Array) -> tuple[Array, Array, Array]:
     cond = jnp.logical_and(jnp.greater(b, jnp.abs(1 - r)), jnp.less(b, 1 + r))
     b_ = jnp.where(cond, b, jnp.ones_like(b))
     area: Array = jnp.where(cond, kite_area(r, b_, jnp.ones_like(r)), jnp.zeros_like(r))
-    return area, jnp.arctan2(area, b2 + factor), jnp.arctan2(area, b2 - factor)
+
+    def angle(x: Array) -> Array:
+        # Both arguments vanish when the two discs coincide
+        cond = jnp.logical_and(jnp.equal(area, 0), jnp.equal(x, 0))
+        return jnp.arctan2(area, jnp.where(cond, jnp.ones_like(x), x))
+
+    return area, angle(b2 + factor), angle(b2 - factor)
 
 
 def s0s2(
-- 
2.43.0


From 01733f791ba929b410fc823f1da4e3687b24024b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:54:35 +0000
Subject: [PATCH 07/32] fix: exposure integration of light curves with units or
 array values

---
 src/jaxoplanet/light_curves/transforms.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/jaxoplanet/light_curves/transforms.py b/src/jaxoplanet/light_curves/transforms.py
index 240b6b3..8e8d76d 100644
--- a/src/jaxoplanet/light_curves/transforms.py
+++ b/src/jaxoplanet/light_curves/transforms.py
@@ -119,7 +119,10 @@ def integrate(
 @lu.transformation  # type: ignore
 def apply_exposure_time_integration(stencil, dt, time, args, kwargs):
     result = yield (time + dt,) + args, kwargs
-    yield jnpu.dot(stencil, result)
+    if is_quantity(result):
+        yield jnp.tensordot(stencil, result.magnitude, axes=1) * result.units
+    else:
+        yield jnp.tensordot(stencil, result, axes=1)
 
 
 @units.quantity_input(period=ureg.day, time_transit=ureg.day, duration=ureg.day)
-- 
2.43.0


From 62e3c05ccfef79917e1e140ca53ae5b11b3a99ec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:54:46 +0000
Subject: [PATCH 08/32] fix: exposure integration passes keyword arguments
 through unmapped

---
 src/jaxoplanet/light_curves/transforms.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/jaxoplanet/light_curves/transforms.py b/src/jaxoplanet/light_curves/transforms.py
index 8e8d76d..f9767b2 100644
--- a/src/jaxoplanet/light_curves/transforms.py
+++ b/src/jaxoplanet/light_curves/transforms.py
@@ -109,9 +109,10 @@ def integrate(
                 "on GitHub demonstrating the problem"
             )
 
-        f = lu.wrap_init(jax.vmap(func, in_axes=(0,) + (None,) * len(args)))
+        # Only the time is mapped, never the extra (positional or keyword) arguments
+        f = lu.wrap_init(jax.vmap(lambda t: func(t, *args, **kwargs)))
         f = apply_exposure_time_integration(f, stencil, dt)  # type: ignore
-        return f.call_wrapped(time, args, kwargs)  # type: ignore
+        return f.call_wrapped(time, (), {})  # type: ignore
 
     return wrapped
 
-- 
2.43.0


From 1af58005c9dadb0a2a8417c2e67bd71f711bbfa2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:05:06 +0000
Subject: [PATCH 09/32] fix: convert the units of transit times and timing
 variations

---
 src/jaxoplanet/orbits/ttv.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/jaxoplanet/orbits/ttv.py b/src/jaxoplanet/orbits/ttv.py
index c4f9864..2325183 100644
--- a/src/jaxoplanet/orbits/ttv.py
+++ b/src/jaxoplanet/orbits/ttv.py
@@ -8,9 +8,9 @@ from jaxoplanet.units import unit_registry as ureg
 
 
 def ensure_quantity(x, unit):
-    """Convert x to a JAX array with the given unit if it isn’t already a quantity."""
+    """Convert x to the given unit, which is assumed if it isn’t already a quantity."""
     if hasattr(x, "to"):
-        return x
+        return x.to(unit)
     else:
         return jnp.asarray(x) * unit
 
-- 
2.43.0


From ad0c043cc7554e22003f400d60f9bb0f38eee2c0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:05:30 +0000
Subject: [PATCH 10/32] fix: one reference time and period per planet when TTVs
 are given

---
 src/jaxoplanet/orbits/ttv.py | 21 +++++++--------------
 1 file changed, 7 insertions(+), 14 deletions(-)

diff --git a/src/jaxoplanet/orbits/ttv.py b/src/jaxoplanet/orbits/ttv.py
index 2325183..e70aae5 100644
--- a/src/jaxoplanet/orbits/ttv.py
+++ b/src/jaxoplanet/orbits/ttv.py
@@ -193,23 +193,16 @@ class TTVOrbit(TransitOrbit):
                 self.transit_inds = tuple(jnp.arange(ttv.shape[0]) for ttv in self.ttvs)
             else:
                 self.transit_inds = tuple(transit_inds)
-            self.t0 = jnp.atleast_1d(time_transit.magnitude)
+            # One reference time and one period per planet
+            n_planets = len(self.ttvs)
+            self.t0 = jnp.broadcast_to(time_transit.magnitude, (n_planets,))
             # For ttvs mode, period is required and used directly:
-            self.ttv_period = jnp.atleast_1d(period.magnitude)
+            self.ttv_period = jnp.broadcast_to(period.magnitude, (n_planets,))
             # Reconstruct transit_times: t0 + period * inds + ttvs
             transit_times_list = []
-            for ttv, inds in zip(self.ttvs, self.transit_inds, strict=False):
-                # Handle single-planet t0 and period versus multi-planet cases.
-                if self.t0.ndim > 0 and self.t0.shape[0] > 1:
-                    t0_i = self.t0[len(transit_times_list)]
-                    period_i = self.ttv_period[len(transit_times_list)]
-                else:
-                    t0_i = self.t0.item() if hasattr(self.t0, "item") else self.t0
-                    period_i = (
-                        self.ttv_period.item()
-                        if hasattr(self.ttv_period, "item")
-                        else self.ttv_period
-                    )
+            for t0_i, period_i, ttv, inds in zip(
+                self.t0, self.ttv_period, self.ttvs, self.transit_inds, strict=False
+            ):
                 transit_times_list.append(t0_i + period_i * inds + ttv)
             self.transit_times = tuple(transit_times_list)
 
-- 
2.43.0


From 621e703cdd5633792c27eb1b5f52e48d2d163b80 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:53:10 +0000
Subject: [PATCH 11/32] fix: degree of the polynomial in
 polynomial_product_matrix

---
 src/jaxoplanet/starry/core/polynomials.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/jaxoplanet/starry/core/polynomials.py b/src/jaxoplanet/starry/core/polynomials.py
index 26acbad..475d6c6 100644
--- a/src/jaxoplanet/starry/core/polynomials.py
+++ b/src/jaxoplanet/starry/core/polynomials.py
@@ -180,7 +180,7 @@ def polynomial_product_matrix(p, degree):
         Array: The polynomial product matrix.
     """
     p = jnp.array(p)
-    deg_p = int(np.floor(np.sqrt(len(p))))
+    deg_p = Pijk.n2lm(len(p) - 1)[0]
     M = jnp.zeros(
         ((deg_p + degree + 1) * (deg_p + degree + 1), (degree + 1) * (degree + 1))
     )
-- 
2.43.0


From a28b5a5d6e073686090591cd82cffba39f78f147 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:53:16 +0000
Subject: [PATCH 12/32] fix: adding a constant to a polynomial only changes its
 constant term

---
 src/jaxoplanet/starry/core/polynomials.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/jaxoplanet/starry/core/polynomials.py b/src/jaxoplanet/starry/core/polynomials.py
index 475d6c6..df70b62 100644
--- a/src/jaxoplanet/starry/core/polynomials.py
+++ b/src/jaxoplanet/starry/core/polynomials.py
@@ -120,7 +120,7 @@ class Pijk(eqx.Module):
         if isinstance(other, Pijk):
             return _add(self, other)
         else:
-            return jax.tree_util.tree_map(lambda x: x + other, self)
+            return _add(self, Pijk({(0, 0, 0): other}))
 
     def __mul__(self, other: Any) -> "Pijk":
         if isinstance(other, Pijk):
-- 
2.43.0


From c5becf997602e5ffd8a67389ea58cdb9ce5605a6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:15:29 +0000
Subject: [PATCH 13/32] fix: obliquity of a map seen from the pole rotates in
 the same direction as for inclination zero

---
 src/jaxoplanet/starry/core/rotation.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/jaxoplanet/starry/core/rotation.py b/src/jaxoplanet/starry/core/rotation.py
index c819e8d..46a47e1 100644
--- a/src/jaxoplanet/starry/core/rotation.py
+++ b/src/jaxoplanet/starry/core/rotation.py
@@ -40,7 +40,8 @@ def dot_rotation_matrix(ydeg, x, y, z, theta):
         if z is None:
             raise ValueError("Either x, y, or z must be specified")
 
-        return dot_rz(ydeg, theta)
+        # the direction of the axis matters, even if its norm does not
+        return dot_rz(ydeg, jnp.sign(z) * theta)
 
     x = 0.0 if x is None else x
     y = 0.0 if y is None else y
@@ -157,7 +158,7 @@ def sky_projection_axis_angle(inc: float | None, obl: float | None):
         return 1.0, None, None, inc
 
     elif inc is None:
-        return None, None, 1.0, obl
+        return None, None, -1.0, obl
 
     else:
         co = jnp.cos(obl / 2)
-- 
2.43.0


From b8287196af894f665c5b8deee9b255a16f420c79 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:36:05 +0000
Subject: [PATCH 14/32] fix: Surface.intensity evaluated the map at the
 antipodal latitude and longitude (-lat, -lon)

---
 src/jaxoplanet/starry/surface.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/jaxoplanet/starry/surface.py b/src/jaxoplanet/starry/surface.py
index 6a93648..2044e28 100644
--- a/src/jaxoplanet/starry/surface.py
+++ b/src/jaxoplanet/starry/surface.py
@@ -213,8 +213,8 @@ class Surface(eqx.Module):
         Returns:
             float: intensity of the map at the given latitude and longitude
         """
-        lon = lon + jnp.pi / 2  # convention, 0 lon faces the observer
-        lat = jnp.pi / 2 - lat  # convention, latitude 0 is equator
+        lon = jnp.pi / 2 - lon  # convention, 0 lon faces the observer
+        lat = jnp.pi / 2 + lat  # convention, latitude 0 is equator
         x = jnp.sin(lat) * jnp.cos(lon)
         y = jnp.sin(lat) * jnp.sin(lon)
         z = jnp.cos(lat) * jnp.ones_like(x)
-- 
2.43.0


From e9a6dc7b7e77335c952790a365a1bed1a044453c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:36:05 +0000
Subject: [PATCH 15/32] fix: radial velocity of a surface seen from the pole
 (inc=None)

---
 src/jaxoplanet/starry/doppler.py | 2 +-
 src/jaxoplanet/starry/surface.py | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/jaxoplanet/starry/doppler.py b/src/jaxoplanet/starry/doppler.py
index 7a9ab36..56bee99 100644
--- a/src/jaxoplanet/starry/doppler.py
+++ b/src/jaxoplanet/starry/doppler.py
@@ -147,7 +147,7 @@ def surface_radial_velocity(
 
     # the radial velocity map
     y_rv = rv_map_expansion(
-        inc=surface._inc, obl=surface._obl, veq=surface.veq, alpha=None
+        inc=surface.inc, obl=surface.obl, veq=surface.veq, alpha=None
     )
 
     # rotated to account for the occultor
diff --git a/src/jaxoplanet/starry/surface.py b/src/jaxoplanet/starry/surface.py
index 2044e28..ecc1bf2 100644
--- a/src/jaxoplanet/starry/surface.py
+++ b/src/jaxoplanet/starry/surface.py
@@ -177,7 +177,7 @@ class Surface(eqx.Module):
 
         if rv:
             y_rv = starry.doppler.rv_map_expansion(
-                inc=self._inc, obl=self._obl, veq=self.veq, alpha=None
+                inc=self.inc, obl=self.obl, veq=self.veq, alpha=None
             )
             p_rv = Pijk.from_dense(
                 jax.experimental.sparse.BCOO.from_scipy_sparse(A1(self.vdeg)).todense()
-- 
2.43.0


From 81ec1538ac25f88ba65867ab2e25dc53abdc6c39 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:36:05 +0000
Subject: [PATCH 16/32] fix: radial velocity of a surface does not depend on
 its amplitude

---
 src/jaxoplanet/starry/doppler.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/jaxoplanet/starry/doppler.py b/src/jaxoplanet/starry/doppler.py
index 56bee99..1d39a08 100644
--- a/src/jaxoplanet/starry/doppler.py
+++ b/src/jaxoplanet/starry/doppler.py
@@ -165,7 +165,7 @@ def surface_radial_velocity(
 
     intensity = (p_yu.tosparse() @ design_matrix_p[0:n_deg]) * norm
 
-    return surface.amplitude * rv * norm / intensity
+    return rv * norm / intensity
 
 
 def radial_velocity(system, order=20):
-- 
2.43.0


From 1fc3427c2f2633bc7c57c780f937364cbfb24eef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:36:05 +0000
Subject: [PATCH 17/32] fix: account for the differential rotation of a surface
 in its radial velocity

---
 src/jaxoplanet/starry/doppler.py | 2 +-
 src/jaxoplanet/starry/surface.py | 4 ++--
 2 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/jaxoplanet/starry/doppler.py b/src/jaxoplanet/starry/doppler.py
index 1d39a08..6975f5d 100644
--- a/src/jaxoplanet/starry/doppler.py
+++ b/src/jaxoplanet/starry/doppler.py
@@ -147,7 +147,7 @@ def surface_radial_velocity(
 
     # the radial velocity map
     y_rv = rv_map_expansion(
-        inc=surface.inc, obl=surface.obl, veq=surface.veq, alpha=None
+        inc=surface.inc, obl=surface.obl, veq=surface.veq, alpha=surface.shear
     )
 
     # rotated to account for the occultor
diff --git a/src/jaxoplanet/starry/surface.py b/src/jaxoplanet/starry/surface.py
index ecc1bf2..16f78e3 100644
--- a/src/jaxoplanet/starry/surface.py
+++ b/src/jaxoplanet/starry/surface.py
@@ -157,7 +157,7 @@ class Surface(eqx.Module):
     @property
     def vdeg(self) -> int:
         if self.shear is not None:
-            return
+            return 3
         else:
             return 1
 
@@ -177,7 +177,7 @@ class Surface(eqx.Module):
 
         if rv:
             y_rv = starry.doppler.rv_map_expansion(
-                inc=self.inc, obl=self.obl, veq=self.veq, alpha=None
+                inc=self.inc, obl=self.obl, veq=self.veq, alpha=self.shear
             )
             p_rv = Pijk.from_dense(
                 jax.experimental.sparse.BCOO.from_scipy_sparse(A1(self.vdeg)).todense()
-- 
2.43.0


From 754241fba7d6e108741862dc7b49b2c554ca4464 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:36:05 +0000
Subject: [PATCH 18/32] fix: radial velocity of a surface without rotation
 period is zero

---
 src/jaxoplanet/starry/surface.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/jaxoplanet/starry/surface.py b/src/jaxoplanet/starry/surface.py
index 16f78e3..4138d3f 100644
--- a/src/jaxoplanet/starry/surface.py
+++ b/src/jaxoplanet/starry/surface.py
@@ -136,7 +136,9 @@ class Surface(eqx.Module):
 
     @property
     def veq(self):
-        """Equatorial velocity of the map in Rsun/day."""
+        """Equatorial velocity of the map in Rsun/day, zero if not rotating."""
+        if self.period is None:
+            return 0.0
         return 2 * jnp.pi * self.radius / self.period
 
     def _poly_basis(self, rv=False):
-- 
2.43.0


From 310b14c4698b1bbb04bd0a333197b1bc322bb9c0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:36:05 +0000
Subject: [PATCH 19/32] fix: reflex motion of all bodies, and scalar times, in
 system radial velocities

---
 src/jaxoplanet/starry/doppler.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/jaxoplanet/starry/doppler.py b/src/jaxoplanet/starry/doppler.py
index 6975f5d..ac3f682 100644
--- a/src/jaxoplanet/starry/doppler.py
+++ b/src/jaxoplanet/starry/doppler.py
@@ -173,7 +173,8 @@ def radial_velocity(system, order=20):
 
     def impl(time):
         rvs = bodies_rv(time)
-        rvs = rvs.at[:, 0].set(rvs[:, 0] + system.radial_velocity(time)[0].magnitude)
-        return rvs
+        # every body contributes to the reflex motion of the central
+        reflex = jnp.sum(system.radial_velocity(time).magnitude, axis=0)
+        return rvs.at[..., 0].add(reflex)
 
     return impl
-- 
2.43.0


From e22cb5d9cc1fff7dc541565d742bd7634ca42b44 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:40:12 +0000
Subject: [PATCH 20/32] fix: a surface exactly covered by an occultor of the
 same size has no flux

---
 src/jaxoplanet/starry/core/solution.py | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/src/jaxoplanet/starry/core/solution.py b/src/jaxoplanet/starry/core/solution.py
index 8536bac..7830279 100644
--- a/src/jaxoplanet/starry/core/solution.py
+++ b/src/jaxoplanet/starry/core/solution.py
@@ -33,7 +33,14 @@ def kappas(b: Array, r: Array) -> tuple[Array, Array]:
     b_cond = jnp.logical_and(jnp.greater(b, jnp.abs(1 - r)), jnp.less(b, 1 + r))
     b_ = jnp.where(b_cond, b, 1)
     area = jnp.where(b_cond, kite_area(r, b_, 1), 0)
-    return jnp.arctan2(area, b2 + factor), jnp.arctan2(area, b2 - factor)
+
+    def angle(x: Array, default: float) -> Array:
+        # Both arguments vanish when the two discs coincide (or when r = 0 and b = 1)
+        cond = jnp.logical_and(jnp.equal(area, 0), jnp.equal(x, 0))
+        return jnp.arctan2(area, jnp.where(cond, default, x))
+
+    # coincident discs are the limit of a full occultation, i.e. kappa1 = pi
+    return angle(b2 + factor, 1.0), angle(b2 - factor, -1.0)
 
 
 def q_integral(l_max: int, lam: Array) -> Array:
-- 
2.43.0


From fe317586cdbe1980236979ce6f25e4689d7de9ae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:40:12 +0000
Subject: [PATCH 21/32] fix: amplitude of a uniform surface during and around
 occultations

---
 src/jaxoplanet/starry/light_curves.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/jaxoplanet/starry/light_curves.py b/src/jaxoplanet/starry/light_curves.py
index c8ac0b8..de7dbb6 100644
--- a/src/jaxoplanet/starry/light_curves.py
+++ b/src/jaxoplanet/starry/light_curves.py
@@ -91,7 +91,7 @@ def surface_light_curve(
 
             lc_func = partial(_limb_dark_light_curve, ld_u, order=order)
             lc = lc_func(b, r)
-            return 1.0 + jnp.where(b_occ, lc, 0)
+            return surface.amplitude * surface.y[(0, 0)] * (1.0 + jnp.where(b_occ, lc, 0))
 
         else:
             theta_z = jnp.arctan2(x, y)
-- 
2.43.0


From e204ca7d39c71936b1eec4c32d7e73cf95672f8c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:41:16 +0000
Subject: [PATCH 22/32] fix: product of spherical harmonic maps is the product
 of the functions

---
 src/jaxoplanet/starry/ylm.py | 45 +++++++++++++++++++++++++++++++-----
 1 file changed, 39 insertions(+), 6 deletions(-)

diff --git a/src/jaxoplanet/starry/ylm.py b/src/jaxoplanet/starry/ylm.py
index b85cdb2..ce7b071 100644
--- a/src/jaxoplanet/starry/ylm.py
+++ b/src/jaxoplanet/starry/ylm.py
@@ -173,13 +173,44 @@ class Ylm(eqx.Module):
         return yu * norm
 
 
+def _to_complex(y: Ylm) -> dict[tuple[int, int], Array]:
+    """Coefficients in the basis of the (orthonormal) complex spherical harmonics with
+    the Condon-Shortley phase, up to the normalization of the real basis."""
+    data = {}
+    for l, m in {(l, abs(m)) for l, m in y.data}:
+        cos, sin = y.data.get((l, m), 0.0), y.data.get((l, -m), 0.0)
+        if m == 0:
+            data[(l, m)] = cos
+        else:
+            data[(l, m)] = (-1) ** m * (cos - 1j * sin) / math.sqrt(2)
+            data[(l, -m)] = (cos + 1j * sin) / math.sqrt(2)
+    return data
+
+
+def _to_real(data: Mapping[tuple[int, int], Array]) -> Ylm:
+    """Inverse of :func:`_to_complex`."""
+    real = {}
+    for (l, m), v in data.items():
+        if m == 0:
+            real[(l, m)] = jnp.real(v)
+        elif m > 0:
+            real[(l, m)] = (-1) ** m * math.sqrt(2) * jnp.real(v)
+            real[(l, -m)] = -((-1) ** m) * math.sqrt(2) * jnp.imag(v)
+    return Ylm(real)
+
+
 def _mul(f: Ylm, g: Ylm) -> Ylm:
     """
     Based closely on the implementation from the MIT-licensed spherical package:
 
     https://github.com/moble/spherical/blob/0aa81c309cac70b90f8dfb743ce35d2cc9ae6dee/
     spherical/multiplication.py
+
+    The product is computed in the basis of the complex spherical harmonics.
     """
+    f_data, g_data = _to_complex(f), _to_complex(g)
+    # the real spherical harmonics are 2/sqrt(pi) times the orthonormal ones
+    norm = 2 / math.sqrt(math.pi)
     ellmax_f = f.deg
     ellmax_g = g.deg
     ellmax_fg = ellmax_f + ellmax_g
@@ -189,18 +220,19 @@ def _mul(f: Ylm, g: Ylm) -> Ylm:
         sqrt1 = math.sqrt((2 * ell1 + 1) / (4 * math.pi))
         for m1 in range(-ell1, ell1 + 1):
             idx1 = (ell1, m1)
-            if idx1 not in f.data:
+            if idx1 not in f_data:
                 continue
-            sum1 = sqrt1 * f.data[idx1]
+            sum1 = norm * sqrt1 * f_data[idx1]
             for ell2 in range(ellmax_g + 1):
                 sqrt2 = math.sqrt(2 * ell2 + 1)
-                # w3j_s = s_calculator.calculate(ell1, ell2, s_f, s_g)
+                # copied because the calculator reuses its workspace
+                w3j_s = np.copy(m_calculator.calculate(ell1, ell2, 0, 0))
                 for m2 in range(-ell2, ell2 + 1):
                     idx2 = (ell2, m2)
-                    if idx2 not in g.data:
+                    if idx2 not in g_data:
                         continue
                     w3j_m = m_calculator.calculate(ell1, ell2, m1, m2)
-                    sum2 = sqrt2 * g.data[idx2]
+                    sum2 = sqrt2 * g_data[idx2]
                     m3 = m1 + m2
                     for ell3 in range(
                         max(abs(m3), abs(ell1 - ell2)), min(ell1 + ell2, ellmax_fg) + 1
@@ -211,12 +243,13 @@ def _mul(f: Ylm, g: Ylm) -> Ylm:
                             (
                                 math.pow(-1, ell1 + ell2 + ell3 + m3)
                                 * math.sqrt(2 * ell3 + 1)
+                                * w3j_s[ell3]  # Wigner3j(ell1, ell2, ell3, 0, 0, 0)
                                 * w3j_m[ell3]  # Wigner3j(ell1, ell2, ell3, m1, m2, -m3)
                             )
                             * sum1
                             * sum2
                         )
-    return Ylm(fg)
+    return _to_real(fg)
 
 
 def Bp(ydeg, npts: int = 1000, eps: float = 1e-9, smoothing=None):
-- 
2.43.0


From 1274a98e381a11fecd949b60626e2ce9df734c8e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:55:11 +0000
Subject: [PATCH 23/32] fix: full_rotation_axis_angle dropped rotations smaller
 than 0.009 rad

---
 src/jaxoplanet/starry/core/rotation.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/jaxoplanet/starry/core/rotation.py b/src/jaxoplanet/starry/core/rotation.py
index 46a47e1..6660ec6 100644
--- a/src/jaxoplanet/starry/core/rotation.py
+++ b/src/jaxoplanet/starry/core/rotation.py
@@ -124,7 +124,8 @@ def full_rotation_axis_angle(
     denominator = jnp.sqrt(1 - 0.5 * arg**2)
 
     farg = f * arg
-    zero_angle = jnp.allclose(farg, 1.0, atol=get_dtype_eps(farg))
+    # only rounding errors: the default rtol would drop rotations of up to 0.5 deg
+    zero_angle = jnp.allclose(farg, 1.0, rtol=0.0, atol=10 * get_dtype_eps(farg))
     angle = jnp.where(zero_angle, 0.0, 2 * jnp.arccos(farg))
 
     non_zero_angle = jnp.logical_not(zero_angle)
-- 
2.43.0


From 635e81ec6e7a8d9174ce88a917723191d4ea9c81 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:15:37 +0000
Subject: [PATCH 24/32] fix: rotate the constant coefficient in the
 multiprecision dot_rotation_matrix

The l = 0 block of the rotated map was always 1, whatever the map.
---
 src/jaxoplanet/starry/multiprecision/rotation.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/jaxoplanet/starry/multiprecision/rotation.py b/src/jaxoplanet/starry/multiprecision/rotation.py
index 54637a0..8800f22 100644
--- a/src/jaxoplanet/starry/multiprecision/rotation.py
+++ b/src/jaxoplanet/starry/multiprecision/rotation.py
@@ -182,7 +182,7 @@ def dot_rotation_matrix(ydeg, u, theta, rotation_matrices=None):
         result = []
         for l in range(ydeg + 1):
             if l == 0:
-                result.append(mp.matrix([1]))
+                result.append(mp.matrix(M[:1]))
             else:
                 result.append(
                     mp.matrix(M[l * l : l * l + 2 * l + 1]).T @ rotation_matrices[l]
-- 
2.43.0


From 5cc9b2c99060c8f8da15db9aff625df23a27ad97 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:15:37 +0000
Subject: [PATCH 25/32] fix: accept theta_z in the multiprecision left_project

Any theta_z != 0 raised a TypeError.
---
 src/jaxoplanet/starry/multiprecision/rotation.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/jaxoplanet/starry/multiprecision/rotation.py b/src/jaxoplanet/starry/multiprecision/rotation.py
index 8800f22..1444400 100644
--- a/src/jaxoplanet/starry/multiprecision/rotation.py
+++ b/src/jaxoplanet/starry/multiprecision/rotation.py
@@ -211,7 +211,7 @@ def left_project(deg, inc, obl, theta, theta_z, x):
     )(x)
 
     if theta_z != 0:
-        x = dot_rotation_matrix(deg, 0, 0, 1.0, -theta_z)(x)
+        x = dot_rotation_matrix(deg, (0.0, 0.0, 1.0), -theta_z)(x)
     return x.T
 
 
-- 
2.43.0


From 290219b3b1bc6de45d39490d223fdec85d160852 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:15:37 +0000
Subject: [PATCH 26/32] fix: turn the multiprecision dot_rz in the same
 direction as the standard one

dot_rz(deg, theta) was the rotation by -theta, unlike R(deg, (0, 0, 1), theta) and
core.rotation.dot_rz. The flux is unchanged.
---
 src/jaxoplanet/starry/multiprecision/flux.py     | 4 ++--
 src/jaxoplanet/starry/multiprecision/rotation.py | 4 ++--
 2 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/jaxoplanet/starry/multiprecision/flux.py b/src/jaxoplanet/starry/multiprecision/flux.py
index d03c3e4..5dd0bd4 100644
--- a/src/jaxoplanet/starry/multiprecision/flux.py
+++ b/src/jaxoplanet/starry/multiprecision/flux.py
@@ -43,7 +43,7 @@ def flux(ydeg=0, udeg=0, inc=mp.pi / 2, obl=0.0, cache=None):
 
     def rotate_y(y, phi):
         y_rotated = dot_rotation_matrix(ydeg, None, None, R_px)(y)
-        y_rotated = dot_rz(ydeg, phi)(y_rotated)
+        y_rotated = dot_rz(ydeg, -phi)(y_rotated)
         y_rotated = dot_rotation_matrix(ydeg, None, None, R_mx)(y_rotated)
         y_rotated = dot_rotation_matrix(ydeg, None, None, R_obl)(y_rotated)
         y_rotated = dot_rotation_matrix(ydeg, None, None, R_inc)(y_rotated)
@@ -65,7 +65,7 @@ def flux(ydeg=0, udeg=0, inc=mp.pi / 2, obl=0.0, cache=None):
             y = mp.matrix(y.tolist())
             if rotate:
                 y_rotated = rotate_y(y, phi)
-                y_rotated = dot_rz(ydeg, theta_z)(y_rotated)
+                y_rotated = dot_rz(ydeg, -theta_z)(y_rotated)
         else:
             y_rotated = mp.matrix([1])
 
diff --git a/src/jaxoplanet/starry/multiprecision/rotation.py b/src/jaxoplanet/starry/multiprecision/rotation.py
index 1444400..0756960 100644
--- a/src/jaxoplanet/starry/multiprecision/rotation.py
+++ b/src/jaxoplanet/starry/multiprecision/rotation.py
@@ -217,8 +217,8 @@ def left_project(deg, inc, obl, theta, theta_z, x):
 
 def dot_rz(deg, theta):
     """Special case for rotation only around z axis"""
-    c = mp.cos(-theta)
-    s = mp.sin(-theta)
+    c = mp.cos(theta)
+    s = mp.sin(theta)
     cosnt = [1.0, c]
     sinnt = [0.0, s]
     for n in range(2, deg + 1):
-- 
2.43.0


From 721cb1606745c2646fbccb8b99d1a006b93e94b8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:15:37 +0000
Subject: [PATCH 27/32] fix: evaluate the multiprecision solution vectors at
 zero separation

k2 = (...) / (4 b r) raised a ZeroDivisionError for b = 0.
---
 .../starry/multiprecision/solution.py         | 23 ++++++++-----------
 1 file changed, 10 insertions(+), 13 deletions(-)

diff --git a/src/jaxoplanet/starry/multiprecision/solution.py b/src/jaxoplanet/starry/multiprecision/solution.py
index a8a97fe..38e3198 100644
--- a/src/jaxoplanet/starry/multiprecision/solution.py
+++ b/src/jaxoplanet/starry/multiprecision/solution.py
@@ -60,7 +60,7 @@ def P(l, m, b, r):
 
     kappa = phi + mp.pi / 2
     delta = (b - r) / (2 * r)
-    k2 = (1 - r**2 - b**2 + 2 * b * r) / (4 * b * r)
+    z2 = 1 - (b - r) ** 2
 
     if (mu / 2) % 2 == 0:
 
@@ -79,9 +79,8 @@ def P(l, m, b, r):
             s = mp.sin(x)
             return (
                 (2 * r) ** (l - 1)
-                * (4 * b * r) ** (3.0 / 2.0)
                 * (s**2 - s**4) ** (0.5 * (l - 2))
-                * (k2 - s**2) ** (3.0 / 2.0)
+                * (z2 - 4 * b * r * s**2) ** (3.0 / 2.0)
                 * (1 - 2 * s**2)
             )
 
@@ -91,10 +90,9 @@ def P(l, m, b, r):
             s = mp.sin(x)
             return (
                 (2 * r) ** (l - 1)
-                * (4 * b * r) ** (3.0 / 2.0)
                 * (s**2 - s**4) ** (0.5 * (l - 3))
                 * (delta + s**2)
-                * (k2 - s**2) ** (3.0 / 2.0)
+                * (z2 - 4 * b * r * s**2) ** (3.0 / 2.0)
                 * (1 - 2 * s**2)
             )
 
@@ -105,10 +103,9 @@ def P(l, m, b, r):
             return (
                 2
                 * (2 * r) ** (l - 1)
-                * (4 * b * r) ** (3.0 / 2.0)
                 * (s**2 - s**4) ** (0.25 * (mu - 1))
                 * (delta + s**2) ** (0.5 * (nu - 1))
-                * (k2 - s**2) ** (3.0 / 2.0)
+                * (z2 - 4 * b * r * s**2) ** (3.0 / 2.0)
             )
 
     elif (mu == 1) and (l == 1):
@@ -257,13 +254,11 @@ def solution_limb_dark(degree, b, r):
         s.append(s1.real)
 
     if degree >= 2:
-        k2 = (1 - r2 - b2 + 2 * b * r) / (4 * b * r)
-
-        if k2 <= 1:
+        if b + r >= 1:
             eta = (1 / (2 * mp.pi)) * (
                 k1 + r2 * (r2 + 2 * b2) * k0 - 0.25 * (1 + 5 * r2 + b2) * area
             )
-        elif k2 > 1:
+        else:
             eta = 0.5 * r2 * (r2 + 2 * b2)
 
         s2 = 2 * s0 + 4 * mp.pi * eta - 2 * mp.pi
@@ -275,9 +270,11 @@ def solution_limb_dark(degree, b, r):
 
             def func(x):
                 s2 = mp.sin(x) ** 2
-                return (k2 - s2) ** (0.5 * n) * (r - b + 2 * b * s2)
+                return (1 - (b - r) ** 2 - 4 * b * r * s2) ** (0.5 * n) * (
+                    r - b + 2 * b * s2
+                )
 
-            sn = 2 * r * (4 * b * r) ** (0.5 * n) * mp.quad(func, [-k0 / 2, k0 / 2])
+            sn = 2 * r * mp.quad(func, [-k0 / 2, k0 / 2])
             sn = sn.real
 
             s.append(-sn)
-- 
2.43.0


From d7d691abd86ae91c44c6addd296df0d431fc6b1c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:15:37 +0000
Subject: [PATCH 28/32] fix: multiprecision solution vectors outside partial
 overlap

sT was only right for a partial overlap or an occultor within the disc: it is now also
the one of the standard implementation beside the disc, for full occultations
(including coincident discs), and for r = 0. solution_limb_dark accepts b < 0.
---
 .../starry/multiprecision/solution.py         | 20 +++++++++----------
 1 file changed, 9 insertions(+), 11 deletions(-)

diff --git a/src/jaxoplanet/starry/multiprecision/solution.py b/src/jaxoplanet/starry/multiprecision/solution.py
index 38e3198..379f813 100644
--- a/src/jaxoplanet/starry/multiprecision/solution.py
+++ b/src/jaxoplanet/starry/multiprecision/solution.py
@@ -31,6 +31,9 @@ def kappas(b, r):
     b2 = b**2
     factor = (r - 1) * (r + 1)
     area = kite_area(r, b, 1.0)
+    if b == 0 and r == 1:
+        # coincident discs: limit of a full occultation
+        return mp.mpf(0), +mp.pi
     return mp.atan2(area, b2 + factor), mp.atan2(area, b2 - factor)
 
 
@@ -51,14 +54,10 @@ def P(l, m, b, r):
     mu = l - m
     nu = l + m
 
-    if (abs(1 - r) < b) and (b < 1 + r):
-        kappa = kappas(b, r)[0]
-        phi = kappa - mp.pi / 2
-    else:
-        phi = mp.pi / 2
-        kappa = mp.pi
+    if r == 0:
+        return 0
 
-    kappa = phi + mp.pi / 2
+    kappa = kappas(b, r)[0]
     delta = (b - r) / (2 * r)
     z2 = 1 - (b - r) ** 2
 
@@ -138,10 +137,7 @@ def p_numerical(l_max, b, r):
 
 def q_numerical(l_max, b, r):
 
-    if (abs(1 - r) < b) and (b < 1 + r):
-        lam = 0.5 * mp.pi - kappas(b, r)[1]
-    else:
-        lam = mp.pi / 2
+    lam = 0.5 * mp.pi - kappas(b, r)[1]
 
     zero = 0.0
     c = mp.cos(lam)
@@ -229,6 +225,8 @@ def rT(lmax: int):
 
 
 def solution_limb_dark(degree, b, r):
+    r = abs(r)
+    b = abs(b)
     r2 = r**2
     b2 = b**2
     s = []
-- 
2.43.0


From 2acfeeaa41fdbfabec6ba1cd6c025f60fa2f56da Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:15:37 +0000
Subject: [PATCH 29/32] fix: multiprecision flux out of occultation and without
 rotation

Outside of occultation, limb-darkened maps (and ydeg = 0) raised, and so did
rotate=False during an occultation. A disc of the same size at b = 0 is hidden.
---
 src/jaxoplanet/starry/multiprecision/flux.py | 17 ++++++++---------
 1 file changed, 8 insertions(+), 9 deletions(-)

diff --git a/src/jaxoplanet/starry/multiprecision/flux.py b/src/jaxoplanet/starry/multiprecision/flux.py
index 5dd0bd4..82ae7f6 100644
--- a/src/jaxoplanet/starry/multiprecision/flux.py
+++ b/src/jaxoplanet/starry/multiprecision/flux.py
@@ -49,22 +49,21 @@ def flux(ydeg=0, udeg=0, inc=mp.pi / 2, obl=0.0, cache=None):
         y_rotated = dot_rotation_matrix(ydeg, None, None, R_inc)(y_rotated)
         return y_rotated
 
-    def rot_flux(y, phi):
-        y = mp.matrix(y.tolist())
-        y_rotated = rotate_y(y, phi)
-        return ((_A1 @ y_rotated).T @ _rT)[0]
+    def rot_flux(y, phi, u=None, rotate=True):
+        return integrate(y, _rT.T, 0.0, phi, u=u, rotate=rotate)
 
     def occ_flux(y, b, r, phi=0.0, u=None, rotate=True):
         xo = 0.0
         yo = b
         theta_z = mp.atan2(xo, yo)
         _sT = get_sT(deg, b, r, cache=cache)
-        x = _sT.T @ _A2
+        return integrate(y, _sT.T @ _A2, theta_z, phi, u=u, rotate=rotate)
 
+    def integrate(y, x, theta_z, phi, u=None, rotate=True):
         if ydeg > 0:
-            y = mp.matrix(y.tolist())
+            y_rotated = mp.matrix(y.tolist())
             if rotate:
-                y_rotated = rotate_y(y, phi)
+                y_rotated = rotate_y(y_rotated, phi)
                 y_rotated = dot_rz(ydeg, -theta_z)(y_rotated)
         else:
             y_rotated = mp.matrix([1])
@@ -90,8 +89,8 @@ def flux(ydeg=0, udeg=0, inc=mp.pi / 2, obl=0.0, cache=None):
             assert len(y) == (ydeg + 1) ** 2, "y must have length (ydeg + 1) ** 2"
 
         if abs(b) >= (r + 1):
-            return rot_flux(y, phi)
-        elif r > 1 and abs(b) <= (r - 1):
+            return rot_flux(y, phi, u=u, rotate=rotate)[0]
+        elif r >= 1 and abs(b) <= (r - 1):
             return mp.mpf(0.0)
         else:
             return occ_flux(y, b, r, phi, u=u, rotate=rotate)[0]
-- 
2.43.0


From 225dcd3ae91142a83205630e9cb8f72a368e27f7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:39:55 +0000
Subject: [PATCH 30/32] fix: keep the gradient of a spot map finite for any
 radius

The derivative of 1 / (1 + exp(-z)) is 0 * inf once exp(-z) overflows, which
happens inside any spot with a radius above 0.3 rad in single precision.
---
 src/jaxoplanet/starry/ylm.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/jaxoplanet/starry/ylm.py b/src/jaxoplanet/starry/ylm.py
index ce7b071..4ad85bd 100644
--- a/src/jaxoplanet/starry/ylm.py
+++ b/src/jaxoplanet/starry/ylm.py
@@ -286,7 +286,7 @@ def spot_profile(theta, radius, spot_fac=300):
 
     """
     z = spot_fac * (theta - radius)
-    return 1 / (1 + jnp.exp(-z)) - 1
+    return jax.nn.sigmoid(z) - 1
 
 
 def ylm_spot(ydeg: int, npts=300, spot_fac=300) -> callable:
-- 
2.43.0


From 37f08c6f1a21e47ff0f28c6b1716fcf2aa9a053f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:05:52 +0000
Subject: [PATCH 31/32] fix: differentiate rotation matrices at zero angle

The Euler angles of a rotation close to the identity (or of any rotation that
keeps the pole) were extracted from the rotation, where the azimuth of the axis
is lost: the gradient with respect to the angle was exactly zero at theta = 0,
e.g. for a spot at latitude 0, and wrong below 1e-7 rad.
---
 src/jaxoplanet/starry/core/s2fft_rotation.py | 30 +++++++++++++-------
 1 file changed, 19 insertions(+), 11 deletions(-)

diff --git a/src/jaxoplanet/starry/core/s2fft_rotation.py b/src/jaxoplanet/starry/core/s2fft_rotation.py
index 6c2e75f..fbc269b 100644
--- a/src/jaxoplanet/starry/core/s2fft_rotation.py
+++ b/src/jaxoplanet/starry/core/s2fft_rotation.py
@@ -26,7 +26,6 @@ from functools import partial
 
 import jax
 import jax.numpy as jnp
-from jax.scipy.spatial.transform import Rotation
 
 
 def _compute_full(dl: jnp.ndarray, beta: float, L: int, el: int) -> jnp.ndarray:
@@ -132,6 +131,24 @@ def _generate_rotate_dls(L: int, beta: float) -> jnp.ndarray:
     return jnp.stack(dls, axis=0)
 
 
+def axis_angle_to_euler(x, y, z, theta):
+    """zyz Euler angles of the rotation by theta about the axis (x, y, z)
+
+    alpha - gamma is a property of the axis. Extracting it from the rotation, as
+    jax.scipy does, loses the derivatives of rotations close to the identity.
+    """
+    tilt2 = x**2 + y**2
+    norm2 = tilt2 + z**2
+    norm = jnp.sqrt(jnp.where(norm2 == 0.0, 1.0, norm2))
+    polar = (x == 0.0) & (y == 0.0)
+    tilt = jnp.where(polar, 0.0, jnp.sqrt(jnp.where(polar, 1.0, tilt2))) / norm
+    sint, cost = jnp.sin(0.5 * theta), jnp.cos(0.5 * theta)
+    beta = 2 * jnp.arctan2(tilt * sint, jnp.sqrt(cost**2 + (z / norm * sint) ** 2))
+    half_sum = jnp.arctan2(z / norm * sint, cost)
+    half_diff = jnp.arctan2(x, jnp.where(polar, 1.0, y))
+    return half_sum + half_diff, beta, half_sum - half_diff
+
+
 def compute_rotation_matrices(deg, x, y, z, theta, homogeneous=False):
 
     def kron(m, n):
@@ -163,16 +180,7 @@ def compute_rotation_matrices(deg, x, y, z, theta, homogeneous=False):
                 res = res.at[m + l, n + l].set(Umn(m, n))
         return res
 
-    def euler(x, y, z, theta):
-        """axis-angle to euler angles"""
-        # the jnp where for theta == 0 is to avoid nans when computing grad
-        axis = jnp.array([jnp.where(theta == 0.0, 1.0, x), y, z])
-        _theta = jnp.where(theta == 0.0, 1.0, theta)
-        axis = axis / jnp.linalg.norm(axis)
-        r = Rotation.from_rotvec(axis * _theta)
-        return jnp.where(theta == 0.0, jnp.array([0.0, 0.0, 0.0]), r.as_euler("zyz"))
-
-    alpha, beta, gamma = euler(x, y, z, theta)
+    alpha, beta, gamma = axis_angle_to_euler(x, y, z, theta)
     dls = _generate_rotate_dls(deg + 1, beta)
     N = jnp.arange(-deg, deg + 1)
     m, mp = jnp.meshgrid(N, N)
-- 
2.43.0


From bbff0d373ae018dc34c31dd1325b87ccc948513a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:05:52 +0000
Subject: [PATCH 32/32] fix: differentiate projections of a body seen pole-on

left_project and right_project combined the inclination and the obliquity in
one rotation whose axis is undefined at inc = 0: the derivatives with respect
to inc and obl were NaN there, and that with respect to inc wrong at inc = pi.
---
 src/jaxoplanet/starry/core/rotation.py | 15 +++++++--------
 1 file changed, 7 insertions(+), 8 deletions(-)

diff --git a/src/jaxoplanet/starry/core/rotation.py b/src/jaxoplanet/starry/core/rotation.py
index 6660ec6..a4af99c 100644
--- a/src/jaxoplanet/starry/core/rotation.py
+++ b/src/jaxoplanet/starry/core/rotation.py
@@ -210,10 +210,12 @@ def left_project(
     m_theta = -theta if theta is not None else theta
     m_theta_z = -theta_z if theta_z is not None else theta_z
 
-    axis_x, axis_y, axis_z, angle = sky_projection_axis_angle(inc, obl)
+    # one rotation after the other, because the axis of the combined rotation
+    # (sky_projection_axis_angle) is not differentiable for a body seen pole-on
     y = dot_rotation_matrix(ydeg, 1.0, None, None, -0.5 * jnp.pi)(y)
     y = dot_rotation_matrix(ydeg, None, None, 1.0, m_theta)(y)
-    y = dot_rotation_matrix(ydeg, axis_x, axis_y, axis_z, angle)(y)
+    y = dot_rotation_matrix(ydeg, 1.0, None, None, inc)(y)
+    y = dot_rotation_matrix(ydeg, None, None, -1.0, obl)(y)
     y = dot_rotation_matrix(ydeg, None, None, 1.0, m_theta_z)(y)
     return y
 
@@ -239,13 +241,10 @@ def right_project(
     Returns:
         Array: rotated spherical harmonic map coefficients
     """
-    axis_x, axis_y, axis_z, angle = sky_projection_axis_angle(inc, obl)
-    m_axis_x = -axis_x if axis_x is not None else axis_x
-    m_axis_y = -axis_y if axis_y is not None else axis_y
-    m_axis_z = -axis_z if axis_z is not None else axis_z
-
+    # see left_project
     y = dot_rotation_matrix(ydeg, None, None, 1.0, theta_z)(y)
-    y = dot_rotation_matrix(ydeg, m_axis_x, m_axis_y, m_axis_z, angle)(y)
+    y = dot_rotation_matrix(ydeg, None, None, 1.0, obl)(y)
+    y = dot_rotation_matrix(ydeg, -1.0, None, None, inc)(y)
     y = dot_rotation_matrix(ydeg, None, None, 1.0, theta)(y)
     y = dot_rotation_matrix(ydeg, 1.0, None, None, 0.5 * jnp.pi)(y)
     return y
-- 
2.43.0

