From 9123b91b6c8fa3a8aa8f876108ab55d9f015f772 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:22:25 +0000
Subject: [PATCH 01/41] fix: apply the ray intensity threshold when trimming
 dead rays

The third positional argument of np.logical_or is the output array, so
rays below ray_intensity_threshold were never removed.
---
 pyrayt/_pyrayt.py | 4 +---
 1 file changed, 1 insertion(+), 3 deletions(-)

diff --git a/pyrayt/_pyrayt.py b/pyrayt/_pyrayt.py
index 8005f85..8ea202d 100644
--- a/pyrayt/_pyrayt.py
+++ b/pyrayt/_pyrayt.py
@@ -414,9 +414,7 @@ class RayTracer(object):
         # (no intersection)
         absorbed_rays = np.isclose(np.linalg.norm(self._ray_set.rays[1], axis=0), 0)
         powerless_rays = self._ray_set.intensity < self.ray_intensity_threshold
-        dead_rays = np.logical_or(
-            absorbed_rays, self._hit_surfaces == -1, powerless_rays
-        )
+        dead_rays = absorbed_rays | (self._hit_surfaces == -1) | powerless_rays
         living_rays = np.logical_not(dead_rays)  # living rays aren't dead...
         # increment the generation number
 
-- 
2.43.0


From 5735758e3a42b01b4932b9dbb08347ea30af0f04 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:22:48 +0000
Subject: [PATCH 02/41] fix: look up the surfaces of the current components at
 every trace

The surface table was built once in the constructor, so rays hitting a
component loaded with load_components() or added to the component list
were recorded where they started and never interacted with it.
---
 pyrayt/_pyrayt.py | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/pyrayt/_pyrayt.py b/pyrayt/_pyrayt.py
index 8ea202d..34cb7e9 100644
--- a/pyrayt/_pyrayt.py
+++ b/pyrayt/_pyrayt.py
@@ -254,10 +254,7 @@ class RayTracer(object):
         self._ray_set = RaySet(0)
         self._next_ray_set = RaySet(0)
 
-        # make a flattened list of all surface IDS
         self._surface_lut = tuple()
-        for shape in self._components:
-            self._surface_lut += shape.surface_ids
 
     def reset(self):
         """
@@ -356,6 +353,11 @@ class RayTracer(object):
     def _st_initialize(self):
         self.reset()  # reset the renderer states/generation number
 
+        # make a flattened list of all surface IDS, the components can change between traces
+        self._surface_lut = tuple()
+        for shape in self._components:
+            self._surface_lut += shape.surface_ids
+
         # make a ray set from the concatenated ray sets returned by the sources
         self._ray_set = np.hstack(
             [source.generate_rays(self._rays_per_source) for source in self._sources]
-- 
2.43.0


From 4c1be0c49fc5a2e8fe14ce25258b575c1ba5b667 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:22:53 +0000
Subject: [PATCH 03/41] fix: return the components from RayTracer.get_system

The attribute it returned does not exist.
---
 pyrayt/_pyrayt.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pyrayt/_pyrayt.py b/pyrayt/_pyrayt.py
index 34cb7e9..95f804e 100644
--- a/pyrayt/_pyrayt.py
+++ b/pyrayt/_pyrayt.py
@@ -321,7 +321,7 @@ class RayTracer(object):
         :return: List[tinygfx.g3d.world_objects.Intersectable]
         """
 
-        return self._system
+        return self._components
 
     def trace(self):
         self._state = RayTracer._States.INITIALIZE  # kick off the state machine
-- 
2.43.0


From 36a65986bd7f7a90c24185469b01e922d32ee41d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:22:58 +0000
Subject: [PATCH 04/41] fix: build elliptical apertures

An aperture of two negative values raised a TypeError instead of giving
an ellipse, and the extent of a parabolic mirror's aperture used the signed values.
---
 pyrayt/components.py | 7 +++----
 1 file changed, 3 insertions(+), 4 deletions(-)

diff --git a/pyrayt/components.py b/pyrayt/components.py
index e7d950d..9ad3da2 100644
--- a/pyrayt/components.py
+++ b/pyrayt/components.py
@@ -42,12 +42,11 @@ def _create_aperture(aperture: Union[float, tuple], thickness):
 
     elif aperture[0] < 0 and aperture[1] < 0:
         # if two values were passed it's elliptical
-        aperture = cg.Cylinder(
+        return cg.Cylinder(
             radius=np.abs(aperture[0]) / 2,
             min_height=-thickness / 2,
             max_height=thickness / 2,
-        )
-        aperture.scale_y(aperture[1] / aperture[0])
+        ).scale_y(aperture[1] / aperture[0])
 
     else:
         raise TypeError(f"Could not deduce an aperture from {aperture}")
@@ -372,7 +371,7 @@ def parabolic_mirror(focus: float, thickness: float, **kwargs) -> cg.csg.Interse
     if hasattr(aperture, "__len__"):
         # if it's a rectangular aperture the dl is the norm of he rectangle
         furthest_point = np.linalg.norm(
-            np.abs(np.asarray(off_axis)) + np.asarray(aperture) / 2
+            np.abs(np.asarray(off_axis)) + np.abs(np.asarray(aperture)) / 2
         )
     else:
         # otherwise if it's circular it's just the radius
-- 
2.43.0


From fc910b3e0bbcfbb195a3025903210bfd380e10db Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:23:28 +0000
Subject: [PATCH 05/41] fix: build biconvex lenses with the documented surfaces

The radii of the two surfaces were exchanged and each sphere was placed
with the other's radius, so the lens did not have the requested thickness;
negative and infinite radii were not handled as documented.
---
 pyrayt/components.py | 20 ++++++++++----------
 1 file changed, 10 insertions(+), 10 deletions(-)

diff --git a/pyrayt/components.py b/pyrayt/components.py
index 9ad3da2..773ab90 100644
--- a/pyrayt/components.py
+++ b/pyrayt/components.py
@@ -180,18 +180,18 @@ def biconvex_lens(r1: float, r2: float, thickness: float, **kwargs) -> cg.Inters
     """
 
     # create an aperture from the aperture arguments
-    aperture_shape = _create_aperture(kwargs.get("aperture"), thickness)
-    left_side = cg.Sphere(r2).move_z(r1 - thickness / 2)
-    right_side = cg.Sphere(r1).move_z(-(r1 - thickness / 2))
-
-    # assign materials from the kwargs
     material = kwargs.get("material")
-    aperture_shape.material = material
-    left_side.material = material
-    right_side.material = material
+    lens = _create_aperture(kwargs.get("aperture"), thickness)
+    lens.material = material
 
-    # perform csg to get the final lens
-    lens = cg.csg.intersect(cg.csg.intersect(left_side, right_side), aperture_shape)
+    # intersect the aperture with the curved surfaces, planar surfaces are left blank
+    if np.isfinite(r1):
+        left_side = cg.Sphere(abs(r1), material=material)
+        lens = cg.csg.intersect(left_side.move_z(abs(r1) - thickness / 2), lens)
+
+    if np.isfinite(r2):
+        right_side = cg.Sphere(abs(r2), material=material)
+        lens = cg.csg.intersect(right_side.move_z(-(abs(r2) - thickness / 2)), lens)
 
     # now we need to rotate the lens so it's orientated in the YZ plane
     return lens
-- 
2.43.0


From d06c8cb1aa8448f1cb21f8e2d29eb6a2027fefea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:23:31 +0000
Subject: [PATCH 06/41] fix: accept negative and infinite radii in
 plano_convex_lens

Both are documented, a negative radius gave an empty lens and an infinite
one a lens full of nans instead of a planar window.
---
 pyrayt/components.py | 14 ++++++--------
 1 file changed, 6 insertions(+), 8 deletions(-)

diff --git a/pyrayt/components.py b/pyrayt/components.py
index 773ab90..12d7112 100644
--- a/pyrayt/components.py
+++ b/pyrayt/components.py
@@ -213,16 +213,14 @@ def plano_convex_lens(r: float, thickness: float, **kwargs) -> cg.csg.Intersecta
     """
 
     # create an aperture from the aperture arguments
-    aperture = _create_aperture(kwargs.get("aperture"), thickness)
-    right_side = cg.Sphere(r).move_z(-(r - thickness / 2))
-
-    # assign materials from the kwargs
     material = kwargs.get("material")
-    aperture.material = material
-    right_side.material = material
+    lens = _create_aperture(kwargs.get("aperture"), thickness)
+    lens.material = material
 
-    # perform csg to get the final lens
-    lens = cg.csg.intersect(right_side, aperture)
+    # perform csg to get the final lens, a planar second surface is left blank
+    if np.isfinite(r):
+        right_side = cg.Sphere(abs(r), material=material)
+        lens = cg.csg.intersect(right_side.move_z(-(abs(r) - thickness / 2)), lens)
 
     # now we need to rotate the lens so it's orientated in the YZ plane
     return lens
-- 
2.43.0


From cd3689f36a5c7ce7fc6ba61faba2a21718f669fe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:23:56 +0000
Subject: [PATCH 07/41] fix: enclose both children in the bounding box of a
 union

If the children's spans along an axis were disjoint or only touched, the
box covered the first one alone and rays missed the other child.
---
 tinygfx/g3d/csg.py | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/tinygfx/g3d/csg.py b/tinygfx/g3d/csg.py
index 9dad29f..e7b3ee1 100644
--- a/tinygfx/g3d/csg.py
+++ b/tinygfx/g3d/csg.py
@@ -107,7 +107,14 @@ class CSGSurface(Intersectable):
             #         (self._operation == Operation.INTERSECT and np.any(np.all(np.isinf(new_spans), axis=0))):
             #     raise ValueError(f"CSG Child Surfaces {self._l_child} and {self._r_child} no longer intersect")
 
-            local_aobb = primitives.Cube(*new_spans[:2])
+            min_corner, max_corner = new_spans[:2]
+            if self._operation == Operation.UNION:
+                # the spans of the children may be disjoint, so extend up to the last one
+                max_corner = np.max(
+                    new_spans, axis=0, where=np.isfinite(new_spans), initial=-np.inf
+                )
+
+            local_aobb = primitives.Cube(min_corner, max_corner)
 
         else:
             # for a diff operation the bounding box must always be the bounding box of the left hand child
-- 
2.43.0


From 8ef672ab58766cd4346edaaaef0f6823c5f788ae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:24:27 +0000
Subject: [PATCH 08/41] fix: keep the bounding boxes of nested CSG surfaces up
 to date

A child copied the watch list of its parent when it was attached, so
surfaces attached to the parent afterwards were not notified and their
bounding boxes went stale when the child was moved.
---
 tinygfx/g3d/world_objects.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/tinygfx/g3d/world_objects.py b/tinygfx/g3d/world_objects.py
index 94d4fd7..9f2162d 100644
--- a/tinygfx/g3d/world_objects.py
+++ b/tinygfx/g3d/world_objects.py
@@ -127,6 +127,9 @@ class WorldObject(CountedObject):
         self._world_coordinate_transform = np.matmul(
             new_transform, self._world_coordinate_transform
         )
+        self._notify_watchers()
+
+    def _notify_watchers(self):
         # update the functions in the watch list
         [fn() for fn in self.var_watchlist]
 
@@ -314,7 +317,8 @@ class Intersectable(WorldObject, abc.ABC):
 
     def attach_to(self, parent_object: WorldObject) -> None:
         self._parent = parent_object
-        self.var_watchlist += parent_object.var_watchlist
+        # the watch list of the parent can still grow, so it's notified instead of copied
+        self.var_watchlist.append(parent_object._notify_watchers)
 
     def invert_normals(self):
         self._normal_scale = -1
-- 
2.43.0


From 12eefe571897f58d67e0382aabbd0b2e100b9064 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:25:16 +0000
Subject: [PATCH 09/41] fix: toggle normals so nested CSG differences keep them
 outward

Subtracting a surface that was itself built by a subtraction inverted the
normals once instead of twice, so glass and shading saw the wrong side.
reset_normals dropped the inversion of the subtracted child altogether.
---
 tinygfx/g3d/csg.py           | 3 +++
 tinygfx/g3d/world_objects.py | 2 +-
 2 files changed, 4 insertions(+), 1 deletion(-)

diff --git a/tinygfx/g3d/csg.py b/tinygfx/g3d/csg.py
index e7b3ee1..d975ddb 100644
--- a/tinygfx/g3d/csg.py
+++ b/tinygfx/g3d/csg.py
@@ -173,6 +173,9 @@ class CSGSurface(Intersectable):
     def reset_normals(self):
         self._l_child.reset_normals()
         self._r_child.reset_normals()
+        # the subtracted child of a difference operation always has inverted normals
+        if self._operation == Operation.DIFFERENCE:
+            self._r_child.invert_normals()
 
     @property
     def surface_ids(self) -> tuple:
diff --git a/tinygfx/g3d/world_objects.py b/tinygfx/g3d/world_objects.py
index 9f2162d..17f628b 100644
--- a/tinygfx/g3d/world_objects.py
+++ b/tinygfx/g3d/world_objects.py
@@ -321,7 +321,7 @@ class Intersectable(WorldObject, abc.ABC):
         self.var_watchlist.append(parent_object._notify_watchers)
 
     def invert_normals(self):
-        self._normal_scale = -1
+        self._normal_scale = -self._normal_scale
 
     def reset_normals(self):
         self._normal_scale = 1
-- 
2.43.0


From d31dbcc2c15ff24e568d95fbfb941ab1f1c2c426 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:25:21 +0000
Subject: [PATCH 10/41] fix: sort CSG hits with a stable algorithm

The hit counting relies on equal distances (the double hit of a plane, rays
along an edge) keeping their order. The default sort does not guarantee
it, so rays leaked through apertures depending on the CPU.
---
 tinygfx/g3d/csg.py | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/tinygfx/g3d/csg.py b/tinygfx/g3d/csg.py
index d975ddb..95bac8c 100644
--- a/tinygfx/g3d/csg.py
+++ b/tinygfx/g3d/csg.py
@@ -28,13 +28,13 @@ def array_csg(
     if array1.ndim == 1:
         # if 1D arrays were passed, concatenate
         merged_array = np.concatenate((array1, array2))
-        merged_argsort = np.argsort(merged_array, axis=0)
+        merged_argsort = np.argsort(merged_array, axis=0, kind="stable")
         merged_array = merged_array[merged_argsort]
 
     else:
         # otherwise stack them where each column represents a unique ray's hits
         merged_array = np.vstack((array1, array2))
-        merged_argsort = np.argsort(merged_array, axis=0)
+        merged_argsort = np.argsort(merged_array, axis=0, kind="stable")
         merged_array = merged_array[merged_argsort, np.arange(merged_array.shape[-1])]
 
     if operation == Operation.UNION or operation == Operation.INTERSECT:
@@ -143,7 +143,9 @@ class CSGSurface(Intersectable):
 
         # build a mask to sort the surfaces
         csg_surfaces = np.vstack((l_surfaces, r_surfaces))
-        surface_sort_mask = np.argsort(np.vstack((l_hits, r_hits)), axis=0)
+        surface_sort_mask = np.argsort(
+            np.vstack((l_hits, r_hits)), axis=0, kind="stable"
+        )
         csg_surfaces = csg_surfaces[
             surface_sort_mask, np.arange(csg_surfaces.shape[-1])
         ]
@@ -151,7 +153,7 @@ class CSGSurface(Intersectable):
         csg_hits = array_csg(l_hits, r_hits, self._operation, sort_output=False)
 
         # sort the hits and the surface mask
-        hit_argsort = np.argsort(csg_hits, axis=0)
+        hit_argsort = np.argsort(csg_hits, axis=0, kind="stable")
         csg_surfaces = csg_surfaces[hit_argsort, np.arange(csg_surfaces.shape[-1])]
         csg_hits = csg_hits[hit_argsort, np.arange(csg_hits.shape[-1])]
 
-- 
2.43.0


From 0dbc0ea733022519febe0d79447afb3d59dacc20 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:26:04 +0000
Subject: [PATCH 11/41] fix: find the roots of quadratics with small
 coefficients

Leading coefficients below 1e-8 were treated as zero, so rays within 1e-4
radians of a cylinder's axis missed it or hit it at the wrong distance.
---
 tinygfx/g3d/operations.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/tinygfx/g3d/operations.py b/tinygfx/g3d/operations.py
index 9eb7a35..0fce192 100644
--- a/tinygfx/g3d/operations.py
+++ b/tinygfx/g3d/operations.py
@@ -40,13 +40,13 @@ def binomial_root(a, b, c, disc=None):
         b ** 2 - 4 * a * c if disc is None else disc
     )  # find the discriminant, or use the provided one
     # linear cases are where there's no expontential term, have to be handled separately
-    linear_cases = np.isclose(a, 0)
+    linear_cases = a == 0
     root = np.sqrt(
         np.maximum(0, disc)
     )  # the square root of the discriminant protected from being nan
 
     # solve for the polynomial roots
-    polyroots = np.vstack(((-b + root), (-b - root))) / (2 * a + np.isclose(a, 0))
+    polyroots = np.vstack(((-b + root), (-b - root))) / (2 * a + linear_cases)
     # Now correct for the cases that should be infinite
     polyroots = np.where(disc >= 0, polyroots, np.inf)
 
@@ -56,7 +56,7 @@ def binomial_root(a, b, c, disc=None):
     # correct for cases that have neither a or b terms
     # if there's not a or b and the discriminant is positive, return +/-inf, otherwise just + inf
     # this is for cylinder intersections cases
-    c_terms_only = np.logical_and(linear_cases, np.isclose(b, 0))
+    c_terms_only = np.logical_and(linear_cases, b == 0)
     polyroots = np.where(c_terms_only, np.inf, polyroots)
     polyroots[0] = np.where(np.logical_and(c_terms_only, c <= 0), -np.inf, polyroots[0])
 
-- 
2.43.0


From 329b787ab6b91a31ccea0f77afe5f28e3db712c0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:26:08 +0000
Subject: [PATCH 12/41] fix: intersect paraboloids with nearly axial rays
 accurately

Rays within 1e-4 radians of the axis were treated as parallel to it, and
just outside of that the roots lost most of their digits to cancellation.
---
 tinygfx/g3d/primitives.py | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/tinygfx/g3d/primitives.py b/tinygfx/g3d/primitives.py
index ef28092..424b361 100644
--- a/tinygfx/g3d/primitives.py
+++ b/tinygfx/g3d/primitives.py
@@ -343,13 +343,14 @@ class Paraboloid(SurfacePrimitive):
         # calculate the binomial roots of the function
         disc = b ** 2 - 4 * a * c  # the discriminant of the sqrt in the roots equation
         # linear cases are where there's no expontential term, have to be handled separately
-        linear_cases = np.isclose(a, 0)
+        linear_cases = a == 0
         root = np.sqrt(
             np.maximum(0, disc)
         )  # the square root of the discriminant protected from being nan
 
-        # solve for the polynomial roots
-        parabola_hits = np.vstack(((-b + root), (-b - root))) / (2 * a + linear_cases)
+        # solve for the polynomial roots, in the form that does not cancel if a is small
+        q = -0.5 * (b + np.where(b >= 0, root, -root))
+        parabola_hits = np.vstack((q / (a + linear_cases), c / (q + (q == 0))))
 
         # Now correct for the cases that should be infinite (no intersection)
         parabola_hits = np.where(disc >= 0, parabola_hits, np.inf)
@@ -358,7 +359,7 @@ class Paraboloid(SurfacePrimitive):
         # for linear cases, the second intersection should be +inf if the ray is traveling in the positive z direction
         # and -inf if the ray is travelling in the negative direction,
         linear_hits = np.empty((2, padded_rays.shape[-1]))
-        linear_hits[0] = -c / (b + np.isclose(b, 0))
+        linear_hits[0] = -c / (b + (b == 0))
         linear_hits[1] = np.where(directions[2] >= 0, np.inf, -np.inf)
 
         parabola_hits = np.where(linear_cases, linear_hits, parabola_hits)
-- 
2.43.0


From 503acd8725b4e56371fffc2f66df0f6436d446ab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:26:40 +0000
Subject: [PATCH 13/41] fix: keep the samples of a StaticLamp, not its placed
 rays

generate_rays was cached as a whole: a lamp that was moved or changed in
wavelength kept emitting its old rays, callers shared the cached array, and
ten other lamps or ray counts evicted a lamp's rays from the shared cache.
---
 pyrayt/components.py | 15 +++++++++++----
 1 file changed, 11 insertions(+), 4 deletions(-)

diff --git a/pyrayt/components.py b/pyrayt/components.py
index 12d7112..4b34c3c 100644
--- a/pyrayt/components.py
+++ b/pyrayt/components.py
@@ -1,5 +1,4 @@
 import abc
-from functools import lru_cache
 from functools import wraps
 from typing import Union, Tuple
 
@@ -654,6 +653,14 @@ class Lamp(Source):
 class StaticLamp(Lamp):
     """Identical to a :class:`Lamp`, except the ray generation function is cached so the same set of rays is generated across multiple simulations. Useful for running Monte-Carlo models where the random noise of the source is larger than the resolution you're trying to capture at."""
 
-    @lru_cache(10)
-    def generate_rays(self, n_rays: int) -> pyrayt.RaySet:
-        return super().generate_rays(n_rays)
+    def __init__(self, *args, **kwargs) -> None:
+        super().__init__(*args, **kwargs)
+        self._cached_rays = {}
+
+    def _local_ray_generation(self, n_rays: int) -> pyrayt.RaySet:
+        # only cache the random samples, as the lamp can be moved and its wavelength changed
+        if n_rays not in self._cached_rays:
+            self._cached_rays[n_rays] = super()._local_ray_generation(n_rays)
+        rayset = self._cached_rays[n_rays].copy()
+        rayset.wavelength = self._wavelength
+        return rayset
-- 
2.43.0


From 2df5ebb9c47a5fd63f793505507aebc1e4b3e360 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:26:44 +0000
Subject: [PATCH 14/41] fix: space CircleOfRays uniformly around the circle

The first and the last ray were the same one, so the points were not
uniformly distributed.
---
 pyrayt/components.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pyrayt/components.py b/pyrayt/components.py
index 4b34c3c..4dbfaf5 100644
--- a/pyrayt/components.py
+++ b/pyrayt/components.py
@@ -542,7 +542,7 @@ class CircleOfRays(Source):
 
         rayset = pyrayt.RaySet(n_rays)
         # if we want more than one ray, linearly space them, otherwise default position is fine
-        theta = np.linspace(0, 2 * np.pi, n_rays)
+        theta = np.linspace(0, 2 * np.pi, n_rays, endpoint=False)
         rayset.rays[0, 1] = (
             self._diameter / 2 * np.sin(theta)
         )  # space rays along the y-axis
-- 
2.43.0


From 4c8be476810876f6f0a523981fb768eb488b607f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:26:48 +0000
Subject: [PATCH 15/41] fix: attribute rows to sources by the ray count they
 were traced with

calculate_source_ids and show(color_function='source') divided by the current
rays_per_source, which may have been changed since the trace.
---
 pyrayt/_pyrayt.py | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/pyrayt/_pyrayt.py b/pyrayt/_pyrayt.py
index 95f804e..b64a189 100644
--- a/pyrayt/_pyrayt.py
+++ b/pyrayt/_pyrayt.py
@@ -239,6 +239,7 @@ class RayTracer(object):
             self._components = components
 
         self._rays_per_source = rays_per_source
+        self._traced_rays_per_source = rays_per_source  # the value used by the last trace
         self._generation_limit = (
             generation_limit  # how many reflections/refractions a ray can encounter
         )
@@ -347,7 +348,7 @@ class RayTracer(object):
         """
         Calculates the Source ID for every ray in the dataframe, adding it as a column
         """
-        ids = (self._frame.data["id"] / self._rays_per_source).astype(int)
+        ids = (self._frame.data["id"] / self._traced_rays_per_source).astype(int)
         self._frame.data["source_id"] = ids
 
     def _st_initialize(self):
@@ -359,6 +360,7 @@ class RayTracer(object):
             self._surface_lut += shape.surface_ids
 
         # make a ray set from the concatenated ray sets returned by the sources
+        self._traced_rays_per_source = self._rays_per_source
         self._ray_set = np.hstack(
             [source.generate_rays(self._rays_per_source) for source in self._sources]
         ).view(RaySet)
@@ -485,8 +487,8 @@ class RayTracer(object):
             for n, this_color in enumerate(colors):
                 color = np.where(
                     np.logical_and(
-                        self._frame.data["id"] >= n * self._rays_per_source,
-                        self._frame.data["id"] < (n + 1) * self._rays_per_source,
+                        self._frame.data["id"] >= n * self._traced_rays_per_source,
+                        self._frame.data["id"] < (n + 1) * self._traced_rays_per_source,
                     ),
                     np.atleast_2d(this_color).T,
                     color,
-- 
2.43.0


From d18ef68ecce8b70ec174f4492f07283248f7ed05 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:27:30 +0000
Subject: [PATCH 16/41] fix: render only what is in front of the camera

Both renderers accepted hits behind the camera, and draw() relied on it: its
xz camera looked away from the scene and its xy camera was inside or below
a scene that does not extend to positive z, showing the wrong surfaces.
---
 tinygfx/g3d/renderers.py | 22 ++++++++++++++--------
 1 file changed, 14 insertions(+), 8 deletions(-)

diff --git a/tinygfx/g3d/renderers.py b/tinygfx/g3d/renderers.py
index c623919..790fd92 100644
--- a/tinygfx/g3d/renderers.py
+++ b/tinygfx/g3d/renderers.py
@@ -78,9 +78,9 @@ class EdgeRender(object):
         ray_hit_index = np.arange(self._rays.shape[-1])
         for n, shape in enumerate(self._shapes):
             shape_hits, shape_surfaces = shape.intersect(self._rays)
-            nearest_hit_arg = np.argmin(
-                np.where(shape_hits > 0, shape_hits, np.inf), axis=0
-            )
+            # eliminate any hits behind the camera
+            shape_hits = np.where(shape_hits > 0, shape_hits, np.inf)
+            nearest_hit_arg = np.argmin(shape_hits, axis=0)
             nearest_hit = shape_hits[nearest_hit_arg, ray_hit_index]
             nearest_surface = shape_surfaces[nearest_hit_arg, ray_hit_index]
             new_minima = nearest_hit < hit_distances
@@ -194,9 +194,9 @@ class ShadedRenderer:
         ray_hit_index = np.arange(self._rays.shape[-1])
         for n, shape in enumerate(self._shapes):
             shape_hits, shape_surfaces = shape.intersect(self._rays)
-            nearest_hit_arg = np.argmin(
-                np.where(shape_hits > 0, shape_hits, np.inf), axis=0
-            )
+            # eliminate any hits behind the camera
+            shape_hits = np.where(shape_hits > 0, shape_hits, np.inf)
+            nearest_hit_arg = np.argmin(shape_hits, axis=0)
             nearest_hit = shape_hits[nearest_hit_arg, ray_hit_index]
             nearest_surface = shape_surfaces[nearest_hit_arg, ray_hit_index]
             new_minima = nearest_hit < hit_distances
@@ -284,7 +284,10 @@ def draw(
 
 def _draw_xy(surfaces: List[TracerSurface], axis, shaded, resolution, maxes, mins):
     camera_origin = (maxes + mins) / 2
-    camera_origin[2] = 1.5 * maxes[2]
+    # look down from above all surfaces
+    camera_origin[2] = 1 + max(
+        surface.bounding_volume.axis_spans[2, 1] for surface in surfaces
+    )
     h_span, v_span = 1.5 * (maxes[:2] - mins[:2])  # the camera spans
     resolution = resolution if h_span > v_span else int(resolution * h_span / v_span)
     # make the camera and move it into position
@@ -318,7 +321,10 @@ def _draw_xy(surfaces: List[TracerSurface], axis, shaded, resolution, maxes, min
 
 def _draw_xz(surfaces: List[TracerSurface], axis, shaded, resolution, maxes, mins):
     camera_origin = (maxes + mins) / 2
-    camera_origin[1] = 1.5 * maxes[1]
+    # the camera looks along the positive y-axis, so it's placed in front of all surfaces
+    camera_origin[1] = -1 + min(
+        surface.bounding_volume.axis_spans[1, 0] for surface in surfaces
+    )
     h_span, v_span = 1.5 * (maxes[[0, 2]] - mins[[0, 2]])  # the camera spans
     resolution = resolution if h_span > v_span else int(resolution * h_span / v_span)
     # make the camera and move it into position
-- 
2.43.0


From 17a0e381e2cabc880cb3edfc3700420eb4855bf6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:27:35 +0000
Subject: [PATCH 17/41] fix: return the rendered image from
 EdgeRender.get_results

The attribute it returned does not exist.
---
 tinygfx/g3d/renderers.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/tinygfx/g3d/renderers.py b/tinygfx/g3d/renderers.py
index 790fd92..f0adf06 100644
--- a/tinygfx/g3d/renderers.py
+++ b/tinygfx/g3d/renderers.py
@@ -54,11 +54,11 @@ class EdgeRender(object):
 
     def get_results(self):
         """
-        Returns a dataframe of the Ray Trace Results
+        Returns the rendered image
 
-        :return: pandas dataframe
+        :return: array of rgba values
         """
-        return self._frame.data
+        return self._results
 
     def _st_initialize(self):
         self.reset()  # reset the renderer states/generation number
-- 
2.43.0


From 39de901c7111ee88306cf870e1a7acc4dd9ef8e4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:28:00 +0000
Subject: [PATCH 18/41] fix: accept a single float in wavelength_to_rgb

It is documented, but raised an IndexError.
---
 pyrayt/utils.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pyrayt/utils.py b/pyrayt/utils.py
index 4371ac8..65de225 100644
--- a/pyrayt/utils.py
+++ b/pyrayt/utils.py
@@ -13,7 +13,7 @@ def wavelength_to_rgb(wavelength: Tuple[float, np.ndarray], gamma=0.8) -> np.nda
     :rtype: np.ndarray
     """
 
-    wavelength = np.asarray(wavelength)  # convert the wavelength into a numpy array
+    wavelength = np.atleast_1d(wavelength)  # convert the wavelength into a numpy array
     color = np.empty((3, wavelength.shape[0]))  # an empty matrix to generate color
 
     # calculate the color for 380 -> 440 nm
-- 
2.43.0


From 4930795e095e679e791786e71801dc7ad3049887 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:28:05 +0000
Subject: [PATCH 19/41] fix: place the surfaces of plane_mirror at x=-thickness
 and x=0

They were at -thickness/2 and thickness/2, unlike documented and unlike
the other mirrors.
---
 pyrayt/components.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pyrayt/components.py b/pyrayt/components.py
index 4dbfaf5..67bd37d 100644
--- a/pyrayt/components.py
+++ b/pyrayt/components.py
@@ -256,8 +256,8 @@ def plane_mirror(thickness: float, **kwargs) -> cg.Intersectable:
     """
     off_axis = kwargs.get("off_axis")
     mirror = _create_aperture(kwargs.get("aperture"), thickness).move(
-        *off_axis, 0
-    )  # move the mirror to it's off axis pt
+        *off_axis, -thickness / 2
+    )  # move the mirror to it's off axis pt, with the second surface at the origin
     mirror.material = kwargs.get("material")
     return mirror
 
-- 
2.43.0


From cf342c5a2f63595600e4f47b98f73c4bb93eff22 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:28:09 +0000
Subject: [PATCH 20/41] fix: intersect cubes without thickness

A rectangular plane_mirror of zero thickness, documented to be a planar
mirror, was never hit.
---
 tinygfx/g3d/primitives.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/tinygfx/g3d/primitives.py b/tinygfx/g3d/primitives.py
index 424b361..783ac98 100644
--- a/tinygfx/g3d/primitives.py
+++ b/tinygfx/g3d/primitives.py
@@ -576,7 +576,7 @@ class Cube(SurfacePrimitive):
         )  # second hit is the min value of the maximums
 
         # if the min is larger than the max the ray missed the cube and should be replaced with inf
-        cube_hits = np.where(cube_hits[0] < cube_hits[1], cube_hits, np.inf)
+        cube_hits = np.where(cube_hits[0] <= cube_hits[1], cube_hits, np.inf)
 
         # return the cube hits
         return cube_hits
-- 
2.43.0


From 3a944d3d0dc19d6bbc70284f21c73c06d518d555 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:28:57 +0000
Subject: [PATCH 21/41] fix: build a plane mirror for a spherical_mirror of
 infinite radius

It is documented, but gave a mirror full of nans that no ray could hit.
---
 pyrayt/components.py | 19 ++++++++++++++++---
 1 file changed, 16 insertions(+), 3 deletions(-)

diff --git a/pyrayt/components.py b/pyrayt/components.py
index 67bd37d..988af8d 100644
--- a/pyrayt/components.py
+++ b/pyrayt/components.py
@@ -295,7 +295,11 @@ def spherical_mirror(radius: float, thickness: float, **kwargs) -> cg.Intersecta
         # otherwise if it's circular it's just the radius
         dl = aperture / 2
 
-    aperture_front_thickness = abs(radius) - np.sqrt(radius ** 2 - (l + dl) ** 2)
+    if np.isfinite(radius):
+        aperture_front_thickness = abs(radius) - np.sqrt(radius ** 2 - (l + dl) ** 2)
+    else:
+        # for a plane mirror this part of the aperture is cut off by the mirror surface
+        aperture_front_thickness = l + dl
     total_thickness = (
         aperture_front_thickness + thickness
     )  # the total aperture thickness
@@ -306,12 +310,21 @@ def spherical_mirror(radius: float, thickness: float, **kwargs) -> cg.Intersecta
     aperture.material = matl.absorber
     aperture.move(*off_axis, 0)
 
+    if np.isfinite(radius):
+        mirror_surface = cg.Sphere(abs(radius), material=material).move_z(radius)
+    else:
+        cut_width = 2 * (l + dl)
+        cut_height = np.copysign(2 * aperture_front_thickness, radius)
+        mirror_surface = cg.Cuboid(
+            (-cut_width, -cut_width, 0),
+            (cut_width, cut_width, cut_height),
+            material=material,
+        )
+
     # a radius >0 puts the curvature on the right side of the lens
     if radius > 0:
-        mirror_surface = cg.Sphere(radius, material=material).move_z(radius)
         aperture.move_z(total_thickness / 2 - thickness)
     elif radius < 0:
-        mirror_surface = cg.Sphere(abs(radius), material=material).move_z(radius)
         aperture.move_z(thickness - total_thickness / 2)
     mirror = cg.csg.difference(aperture, mirror_surface)
     return mirror
-- 
2.43.0


From 19feb9128ce9aeb04ac0e40add4d19de43f204c4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:29:23 +0000
Subject: [PATCH 22/41] fix: build baffles from every kind of aperture
 specification

Circular and elliptical ones raised a TypeError, and the y and z sizes of a
rectangular baffle were exchanged.
---
 pyrayt/components.py | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/pyrayt/components.py b/pyrayt/components.py
index 988af8d..887ad31 100644
--- a/pyrayt/components.py
+++ b/pyrayt/components.py
@@ -454,7 +454,13 @@ def baffle(aperture: Union[float, Tuple[float, float]]) -> cg.Intersectable:
     :return: a planar baffle centered at the origin, coplanar to the YZ Plane.
     """
 
-    return cg.XYPlane(aperture[0], aperture[1], material=matl.absorber).rotate_y(90)
+    if hasattr(aperture, "__len__") and aperture[0] > 0 and aperture[1] > 0:
+        stop = cg.XYPlane(aperture[0], aperture[1])
+    else:
+        stop = _create_aperture(aperture, thickness=0)
+
+    stop.material = matl.absorber
+    return stop.rotate_y(90).rotate_x(90)
 
 
 def aperture(
@@ -471,7 +477,7 @@ def aperture(
     :rtype: cg.Intersectable
     """
 
-    aperture_stop = baffle(size).rotate_y(-90)
+    aperture_stop = baffle(size).rotate_x(-90).rotate_y(-90)
     aperture = _create_aperture(aperture_size, thickness=0.1)
 
     return cg.csg.difference(aperture_stop, aperture).rotate_y(90).rotate_x(-90)
-- 
2.43.0


From 0d14629618a464d1cd3a0e6bcce2022db6d3cd72 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:29:28 +0000
Subject: [PATCH 23/41] fix: reject scaling by zero before changing the object

It raised a LinAlgError after the object's transform had become singular,
leaving the object unusable.
---
 tinygfx/g3d/world_objects.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/tinygfx/g3d/world_objects.py b/tinygfx/g3d/world_objects.py
index 17f628b..666742c 100644
--- a/tinygfx/g3d/world_objects.py
+++ b/tinygfx/g3d/world_objects.py
@@ -218,8 +218,8 @@ class WorldObject(CountedObject):
     # Scale operations
     def scale(self, x=1, y=1, z=1):
         # for now we're only going to allow positive scaling
-        if x < 0 or y < 0 or z < 0:
-            raise ValueError("Negative values for scale operations are prohibited")
+        if x <= 0 or y <= 0 or z <= 0:
+            raise ValueError("Scale operations are only allowed for positive values")
 
         tx = np.diag((x, y, z, 1))
         self._append_world_transform(tx)
-- 
2.43.0


From f4b076d86db1902cb5819c0bbb029e0998aa9fc4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:29:32 +0000
Subject: [PATCH 24/41] fix: do not normalize the caller's vectors in refract

---
 tinygfx/g3d/operations.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/tinygfx/g3d/operations.py b/tinygfx/g3d/operations.py
index 0fce192..4f556a9 100644
--- a/tinygfx/g3d/operations.py
+++ b/tinygfx/g3d/operations.py
@@ -122,7 +122,7 @@ def refract(vectors, normals, n1, n2, n_global=1):
     :return: a 4xn array of homogeneous vectors representing the new transmission direction of the vectors after the
         medium
     """
-    vectors /= np.linalg.norm(vectors, axis=0)
+    vectors = vectors / np.linalg.norm(vectors, axis=0)
     cos_theta1_p = element_wise_dot(
         vectors, normals, axis=0
     )  # the angle dotted with the normals
-- 
2.43.0


From cca62fb44d7f965d63abb4a427c2692404158b99 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:29:53 +0000
Subject: [PATCH 25/41] fix: find the smallest positive root for any leading
 coefficient

A negative one exchanges the order of the two roots, so the smaller root was
returned even if it was negative or no root was found, and one below 1e-8
was divided by one instead.
---
 tinygfx/g3d/operations.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/tinygfx/g3d/operations.py b/tinygfx/g3d/operations.py
index 4f556a9..a5df44e 100644
--- a/tinygfx/g3d/operations.py
+++ b/tinygfx/g3d/operations.py
@@ -17,11 +17,12 @@ def smallest_positive_root(a, b, c):
         np.maximum(0, disc)
     )  # the square root of the discriminant protected from being nan
     polyroots = np.array(((-b + root), (-b - root))) / (
-        2 * a + np.isclose(a, 0)
+        2 * a + (a == 0)
     )  # the positive element of the polynomial root
 
-    # want to keep the smallest hit that is positive, so if hits[1]<0, just keep the positive hit
-    nearest_hit = np.where(polyroots[1] >= 0, np.amin(polyroots, axis=0), polyroots[0])
+    # want to keep the smallest hit that is positive, so if the smaller one is <0, just keep the larger one
+    smaller, larger = np.sort(polyroots, axis=0)
+    nearest_hit = np.where(smaller >= 0, smaller, larger)
     return np.where(np.logical_and(disc >= 0, nearest_hit >= 0), nearest_hit, np.inf)
 
 
-- 
2.43.0


From 95dfdbf897d63dc5cbaa72e3c0de4ee5dccdefd6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:29:58 +0000
Subject: [PATCH 26/41] fix: stop at generation limits that are never met
 exactly

With a limit of zero (or a fractional one) the limit was never equal to the
generation number, so rays trapped between mirrors were traced forever.
---
 pyrayt/_pyrayt.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/pyrayt/_pyrayt.py b/pyrayt/_pyrayt.py
index b64a189..a65ed60 100644
--- a/pyrayt/_pyrayt.py
+++ b/pyrayt/_pyrayt.py
@@ -422,8 +422,8 @@ class RayTracer(object):
         living_rays = np.logical_not(dead_rays)  # living rays aren't dead...
         # increment the generation number
 
-        # if there's no more rays exit the sim without saving data
-        if np.all(dead_rays):
+        # if there's no more rays, or they may not be traced any further, exit the sim without saving data
+        if np.all(dead_rays) or self._generation_number >= self._generation_limit:
             self._state = RayTracer._States.FINISH
         else:
             # otherwise save data
@@ -443,7 +443,7 @@ class RayTracer(object):
             next_ray_set.generation = self._generation_number
 
             # if we hit the generation limit exit the sim
-            if self._generation_number == self._generation_limit:
+            if self._generation_number >= self._generation_limit:
                 self._state = RayTracer._States.FINISH
 
             else:
-- 
2.43.0


From 64217f64ee1a95c681d7f90aad9c38543b9437af Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:30:26 +0000
Subject: [PATCH 27/41] fix: restore pinned members of pinned groups and CSG
 surfaces

Restoring the group after its member moved the already restored member away
from its original position again.
---
 pyrayt/_pyrayt.py | 12 ++++++++----
 1 file changed, 8 insertions(+), 4 deletions(-)

diff --git a/pyrayt/_pyrayt.py b/pyrayt/_pyrayt.py
index a65ed60..b7ce10c 100644
--- a/pyrayt/_pyrayt.py
+++ b/pyrayt/_pyrayt.py
@@ -571,7 +571,11 @@ class pin(object):
 
     def __exit__(self, exception_type, exception_value, traceback):
 
-        for this_object, starting_matrix in zip(self._obj_set, self._starting_matrices):
-            final_matrix = this_object.get_world_transform()
-            matrix_change = np.matmul(final_matrix, np.linalg.inv(starting_matrix))
-            this_object.transform(np.linalg.inv(matrix_change))
+        # restoring a group or CSG surface moves its members too, so repeat for members that are pinned themselves
+        for _ in self._obj_set:
+            for this_object, starting_matrix in zip(
+                self._obj_set, self._starting_matrices
+            ):
+                final_matrix = this_object.get_world_transform()
+                matrix_change = np.matmul(final_matrix, np.linalg.inv(starting_matrix))
+                this_object.transform(np.linalg.inv(matrix_change))
-- 
2.43.0


From 27184f9988c294eb2fc4abd6a7b8e0925cb44b31 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:45:35 +0000
Subject: [PATCH 28/41] fix: keep the bounding box of a union of empty children
 empty

If neither child had a span along an axis, the box became infinite, and
rays parallel to that axis were dropped by every enclosing union.
---
 tinygfx/g3d/csg.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/tinygfx/g3d/csg.py b/tinygfx/g3d/csg.py
index 95bac8c..dc27379 100644
--- a/tinygfx/g3d/csg.py
+++ b/tinygfx/g3d/csg.py
@@ -113,6 +113,8 @@ class CSGSurface(Intersectable):
                 max_corner = np.max(
                     new_spans, axis=0, where=np.isfinite(new_spans), initial=-np.inf
                 )
+                # if both children are empty along an axis there is no last one
+                max_corner = np.maximum(min_corner, max_corner)
 
             local_aobb = primitives.Cube(min_corner, max_corner)
 
-- 
2.43.0


From 521a258670c9cb432a7127c683fbc43c4c1ac929 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:41:41 +0000
Subject: [PATCH 29/41] fix: compute the Abbe number from the glass's current
 index

---
 pyrayt/materials.py | 2 --
 1 file changed, 2 deletions(-)

diff --git a/pyrayt/materials.py b/pyrayt/materials.py
index d63cef5..c1c9a6c 100644
--- a/pyrayt/materials.py
+++ b/pyrayt/materials.py
@@ -4,7 +4,6 @@ from pyrayt._pyrayt import RaySet
 from tinygfx.g3d import materials as cg_matl
 import tinygfx.g3d as cg
 import abc
-from functools import lru_cache
 
 
 class TracableMaterial(cg_matl.gooch.Material):
@@ -74,7 +73,6 @@ class Glass(TracableMaterial):
         )
         return ray_set
 
-    @lru_cache(100)
     def abbe(self) -> float:
         """
         Calculates the `Abbe number <https://en.wikipedia.org/wiki/Abbe_number>`_ of the material.
-- 
2.43.0


From 0c289db1ba62d6adb94b7672cf49cc95a68f0170 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:13:36 +0000
Subject: [PATCH 30/41] fix: average several lights in the Gooch shader

---
 tinygfx/g3d/materials/gooch.py | 6 ++----
 1 file changed, 2 insertions(+), 4 deletions(-)

diff --git a/tinygfx/g3d/materials/gooch.py b/tinygfx/g3d/materials/gooch.py
index 2b03e64..cd8aedd 100644
--- a/tinygfx/g3d/materials/gooch.py
+++ b/tinygfx/g3d/materials/gooch.py
@@ -46,12 +46,10 @@ class GoochMaterial(Material):
             ]
 
         else:
-            light_vectors = light_positions[:3, :, np.newaxis] - np.tile(
-                rays[0, :3], (light_positions.shape[-1], 1, 1)
-            )
+            light_vectors = light_positions[:3].T[..., np.newaxis] - rays[0, :3]
 
         # normalize the light vector
-        light_vectors /= np.linalg.norm(light_vectors, axis=1)
+        light_vectors /= np.linalg.norm(light_vectors, axis=1, keepdims=True)
         # take the dot product of each slice of the light vectors with the normal vector
         light_normal_dot = np.einsum("ijk,jk->ik", light_vectors, normals)
 
-- 
2.43.0


From bee8a35c12ed963573af3ed5bfcccbfbe2e738dd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:56:57 +0000
Subject: [PATCH 31/41] fix: treat only rays exactly parallel to a face as
 parallel

---
 tinygfx/g3d/primitives.py | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/tinygfx/g3d/primitives.py b/tinygfx/g3d/primitives.py
index 783ac98..7c3e2db 100644
--- a/tinygfx/g3d/primitives.py
+++ b/tinygfx/g3d/primitives.py
@@ -370,7 +370,7 @@ class Paraboloid(SurfacePrimitive):
         # now we need to clip the parabola hits with two two planes that define the max and min of the height
 
         # make a variable to track if the ray travels parallel to the planes
-        parallel_to_plane = np.isclose(directions[2], 0)
+        parallel_to_plane = directions[2] == 0
 
         # as well as track if the ray originates between the planes
         inside_bounds = np.logical_and(origins[2] >= 0, origins[2] <= self._height)
@@ -453,7 +453,7 @@ class Plane(SurfacePrimitive):
             (2, 2 * origins.shape[-1])
         )  # make an empty array for boundary hits
         for axis, dim in enumerate((self._width, self._length)):
-            is_zero = np.isclose(directions[axis], 0)
+            is_zero = directions[axis] == 0
             # need a special case if the position is skew to an axis, have to know if the point is in the projected
             # square
             skew_case_hit = np.where(np.abs(origins[axis]) <= dim / 2, -np.inf, np.inf)
@@ -479,7 +479,7 @@ class Plane(SurfacePrimitive):
 
         # next is to find the intersection with the actual plane
         plane_axis = 2  # the plane perpendicular to the z-axis
-        skew_ray = np.isclose(directions[plane_axis], 0)
+        skew_ray = directions[plane_axis] == 0
         plane_hits = -origins[plane_axis] / (directions[plane_axis] + skew_ray)
         plane_hits = np.where(skew_ray, np.inf, plane_hits)
 
@@ -531,7 +531,7 @@ class Cube(SurfacePrimitive):
 
         for axis in [0, 1, 2]:
             # if the vector does not travel in that direction they won't intersect
-            is_zero = np.isclose(directions[axis], 0)
+            is_zero = directions[axis] == 0
             # need a special case if the position is skew to an axis, have to know if the point is in teh projected
             # square
             skew_case_min = np.where(
@@ -681,7 +681,7 @@ class Cylinder(SurfacePrimitive):
         # now we need to clip the parabola hits with two two planes that define the max and min of the height
 
         # make a variable to track if the ray travels parallel to the planes
-        parallel_to_plane = np.isclose(directions[2], 0)
+        parallel_to_plane = directions[2] == 0
 
         # as well as track if the ray originates between the planes
         inside_bounds = np.logical_and(
-- 
2.43.0


From 09c2e5c5c4319efcf1bb5de368a85812965e1c92 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:19:21 +0000
Subject: [PATCH 32/41] fix: decide by the nearest face where a normal is asked
 for

Cubes, cylinders and paraboloids took every point within a hundred-thousandth of a face's coordinate for a point of that
face, which is wide for solids away from their origin and for long, thin ones.
---
 tinygfx/g3d/primitives.py | 33 +++++++++++++++++++++++----------
 1 file changed, 23 insertions(+), 10 deletions(-)

diff --git a/tinygfx/g3d/primitives.py b/tinygfx/g3d/primitives.py
index 7c3e2db..84baab4 100644
--- a/tinygfx/g3d/primitives.py
+++ b/tinygfx/g3d/primitives.py
@@ -410,9 +410,15 @@ class Paraboloid(SurfacePrimitive):
         normals[3] = 0  # wipe out the point setting
         normals[2] = -2 * self._focus
 
-        # if the intersection is with the cap the normal should be in the positive Z direction
+        # if the intersection is with the cap the normal should be in the positive Z direction. A point belongs to
+        # whichever of the cap and the curved surface it is closer to
+        curve_distance = np.abs(
+            intersections[0] ** 2
+            + intersections[1] ** 2
+            - 4 * self._focus * intersections[2]
+        ) / (2 * np.hypot(np.hypot(intersections[0], intersections[1]), normals[2]))
         normals = np.where(
-            np.isclose(intersections[2], self._height),
+            np.abs(intersections[2] - self._height) <= curve_distance,
             np.array([[0], [0], [1.0], [0]]),
             normals,
         )
@@ -591,12 +597,13 @@ class Cube(SurfacePrimitive):
         if single_point:
             intersections = intersections[..., np.newaxis]
 
-        padded_axes = np.vstack((self.axis_spans, (0, 0)))
-        negative_normals = np.isclose(intersections, padded_axes[:, 0, np.newaxis])
-        positive_normals = np.isclose(intersections, padded_axes[:, 1, np.newaxis])
-        normals = np.where(negative_normals, -1.0, 0)
-        normals = np.where(positive_normals, 1.0, normals)
-        normals[-1] = 0  # wipe out the point homogenous coordinate
+        # the distance of every point to the lower and upper face of each axis, the closest one is where the point lies
+        to_min = np.abs(intersections[:3] - self.axis_spans[:, 0, np.newaxis])
+        to_max = np.abs(intersections[:3] - self.axis_spans[:, 1, np.newaxis])
+        closest = np.minimum(to_min, to_max).min(axis=0)
+        normals = np.zeros(intersections.shape)
+        normals[:3] = np.where(to_min == closest, -1.0, 0)
+        normals[:3] = np.where(to_max == closest, 1.0, normals[:3])
         normals /= np.linalg.norm(normals, axis=0)
 
         # if a 1d array was passed, transpose it and strip a dimension
@@ -725,8 +732,14 @@ class Cylinder(SurfacePrimitive):
 
         if self._capped:
             z_coord = intersections[2]
-            negative_normals = np.isclose(z_coord, self._h_min)
-            positive_normals = np.isclose(z_coord, self._h_max)
+            # a point belongs to whichever of the caps and the side it is closer to
+            side_distance = np.abs(
+                np.hypot(intersections[0], intersections[1]) - self._radius
+            )
+            to_min = np.abs(z_coord - self._h_min)
+            to_max = np.abs(z_coord - self._h_max)
+            negative_normals = to_min <= np.minimum(side_distance, to_max)
+            positive_normals = to_max <= np.minimum(side_distance, to_min)
             normals = np.where(
                 negative_normals, np.array([[0], [0], [-1], [0]]), normals
             )
-- 
2.43.0


From 830406b16a458efbe822fbfeba9ae2bc389145b5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:26:16 +0000
Subject: [PATCH 33/41] fix: draw() and show() of components seen edge-on

A lone baffle or plane, or a scene more elongated than the resolution, made the camera have no pixels and raised.
---
 tinygfx/g3d/renderers.py     | 20 ++++++++++++++++----
 tinygfx/g3d/world_objects.py |  2 +-
 2 files changed, 17 insertions(+), 5 deletions(-)

diff --git a/tinygfx/g3d/renderers.py b/tinygfx/g3d/renderers.py
index f0adf06..0527f64 100644
--- a/tinygfx/g3d/renderers.py
+++ b/tinygfx/g3d/renderers.py
@@ -282,14 +282,25 @@ def draw(
         _draw_xz(surfaces, axis, shaded, resolution, maxes, mins)
 
 
+def _camera_size(extent, resolution):
+    """
+    the horizontal and vertical camera span and the horizontal pixel count for a drawing of the given extent
+    """
+    spans = 1.5 * extent
+    # flat components may be seen edge-on, the picture of those is still one pixel wide
+    h_span, v_span = np.maximum(spans, np.max(spans) / resolution)
+    if h_span <= v_span:
+        resolution = max(1, int(resolution * h_span / v_span))
+    return h_span, v_span, resolution
+
+
 def _draw_xy(surfaces: List[TracerSurface], axis, shaded, resolution, maxes, mins):
     camera_origin = (maxes + mins) / 2
     # look down from above all surfaces
     camera_origin[2] = 1 + max(
         surface.bounding_volume.axis_spans[2, 1] for surface in surfaces
     )
-    h_span, v_span = 1.5 * (maxes[:2] - mins[:2])  # the camera spans
-    resolution = resolution if h_span > v_span else int(resolution * h_span / v_span)
+    h_span, v_span, resolution = _camera_size(maxes[:2] - mins[:2], resolution)
     # make the camera and move it into position
     camera = OrthographicCamera(resolution, h_span, v_span / h_span)
     camera.rotate_y(90).rotate_z(90).move(*camera_origin[:3])
@@ -325,8 +336,9 @@ def _draw_xz(surfaces: List[TracerSurface], axis, shaded, resolution, maxes, min
     camera_origin[1] = -1 + min(
         surface.bounding_volume.axis_spans[1, 0] for surface in surfaces
     )
-    h_span, v_span = 1.5 * (maxes[[0, 2]] - mins[[0, 2]])  # the camera spans
-    resolution = resolution if h_span > v_span else int(resolution * h_span / v_span)
+    h_span, v_span, resolution = _camera_size(
+        maxes[[0, 2]] - mins[[0, 2]], resolution
+    )
     # make the camera and move it into position
     camera = OrthographicCamera(resolution, h_span, v_span / h_span)
     camera.rotate_z(90).move(*camera_origin[:3])
diff --git a/tinygfx/g3d/world_objects.py b/tinygfx/g3d/world_objects.py
index 666742c..7fe2f24 100644
--- a/tinygfx/g3d/world_objects.py
+++ b/tinygfx/g3d/world_objects.py
@@ -512,7 +512,7 @@ class OrthographicCamera(WorldObject):
         self._h_pixels = h_pixel_count
         self._h_width = h_width
         self._v_width = aspect_ratio * h_width
-        self._v_pixels = int(aspect_ratio * self._h_pixels)
+        self._v_pixels = max(1, int(aspect_ratio * self._h_pixels))
 
     def get_resolution(self):
         return (self._h_pixels, self._v_pixels)
-- 
2.43.0


From ef1f81f1902783bdfd573c2d2ed354952aee0407 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:33:54 +0000
Subject: [PATCH 34/41] fix: tracers keep what an iterator of sources or
 components yields

Sources and components may be any iterable, but an iterator was kept as it is
and exhausted by the first walk over it: components given as a generator were
used up while the surfaces were listed, so a trace silently had no rows.
---
 pyrayt/_pyrayt.py | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/pyrayt/_pyrayt.py b/pyrayt/_pyrayt.py
index b7ce10c..0bcd9ee 100644
--- a/pyrayt/_pyrayt.py
+++ b/pyrayt/_pyrayt.py
@@ -229,14 +229,16 @@ class RayTracer(object):
         if not hasattr(sources, "__iter__"):
             self._sources = (sources,)
         else:
-            self._sources = sources
+            # an iterator can only be walked once, so what it yields is kept in a list
+            self._sources = list(sources) if iter(sources) is sources else sources
 
         if not hasattr(
             components, "__iter__"
         ):  # returns True if type of iterable - same problem with strings
             self._components = (components,)
         else:
-            self._components = components
+            # an iterator can only be walked once, so what it yields is kept in a list
+            self._components = list(components) if iter(components) is components else components
 
         self._rays_per_source = rays_per_source
         self._traced_rays_per_source = rays_per_source  # the value used by the last trace
@@ -312,7 +314,8 @@ class RayTracer(object):
         ):  # returns True if type of iterable - same problem with strings
             self._components = (components,)
         else:
-            self._components = components
+            # an iterator can only be walked once, so what it yields is kept in a list
+            self._components = list(components) if iter(components) is components else components
 
     def get_system(self):
         """
-- 
2.43.0


From 5e957d602fabf1865583d5620185f46042dc1ffd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:17:11 +0000
Subject: [PATCH 35/41] fix: show() draws rays longer than 65536 ray widths to
 their end

matplotlib's quiver silently cuts off arrows longer than 2**16 times their
width, so with the default width a ray longer than 655 units ended in mid-air.
---
 pyrayt/_pyrayt.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/pyrayt/_pyrayt.py b/pyrayt/_pyrayt.py
index 0bcd9ee..53f4a1f 100644
--- a/pyrayt/_pyrayt.py
+++ b/pyrayt/_pyrayt.py
@@ -525,6 +525,10 @@ class RayTracer(object):
         if self._simulation_complete:
             u = self._frame.data[x1].sub(self._frame.data[x0])
             v = self._frame.data[y1].sub(self._frame.data[y0])
+            if ray_width is not None:
+                # quiver cuts off any arrow longer than 2**16 times its width
+                longest = np.hypot(u, v).to_numpy().max(initial=0)
+                ray_width = max(ray_width, longest / 2 ** 16)
             axis.set_aspect("equal")
             axis.quiver(
                 self._frame.data[x0],
-- 
2.43.0


From 8a3b494ba1dc0f96015fcbbab0ff6e78b8342fc7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:23:39 +0000
Subject: [PATCH 36/41] fix: a surface that belongs to several components
 interacts only once per generation

A component listed twice, or a part listed beside its combination, was in the
surface table twice, so its hits were moved and handed to the material twice.
---
 pyrayt/_pyrayt.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/pyrayt/_pyrayt.py b/pyrayt/_pyrayt.py
index 53f4a1f..0331c9b 100644
--- a/pyrayt/_pyrayt.py
+++ b/pyrayt/_pyrayt.py
@@ -361,6 +361,8 @@ class RayTracer(object):
         self._surface_lut = tuple()
         for shape in self._components:
             self._surface_lut += shape.surface_ids
+        # a surface may belong to several components, but must only interact once with the rays that hit it
+        self._surface_lut = tuple(dict(self._surface_lut).items())
 
         # make a ray set from the concatenated ray sets returned by the sources
         self._traced_rays_per_source = self._rays_per_source
-- 
2.43.0


From c4cb35a62a55d93163b72838479fa018d49dd180 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:30:38 +0000
Subject: [PATCH 37/41] fix: lenses and mirrors of steep curvature with
 elliptical or off-axis apertures are no longer NaN

---
 pyrayt/components.py | 12 ++++++++----
 1 file changed, 8 insertions(+), 4 deletions(-)

diff --git a/pyrayt/components.py b/pyrayt/components.py
index 887ad31..b267321 100644
--- a/pyrayt/components.py
+++ b/pyrayt/components.py
@@ -142,17 +142,18 @@ def _lens_full_thickness(r1, r2, thickness, aperture) -> Tuple[float, float]:
         max_height = aperture / 2
 
     else:
-        # otherwise it's rectangular in which case the max height is the norm of the aperture
+        # otherwise it's rectangular in which case the max height is the norm of the aperture, for an ellipse this
+        # is an upper limit that can exceed the radius of curvature
         max_height = np.linalg.norm(aperture) / 2
 
     # The left thickness is based on the radius of curvature, positive is concave, negative is convex
     left_thickness = thickness / 2
     if np.isfinite(r1) and r1 < 0:
-        left_thickness += np.abs(r1) - np.sqrt(np.abs(r1) ** 2 - max_height ** 2)
+        left_thickness += np.abs(r1) - np.sqrt(max(r1 ** 2 - max_height ** 2, 0))
 
     right_thickness = thickness / 2
     if np.isfinite(r2) and r2 > 0:
-        right_thickness += np.abs(r2) - np.sqrt(np.abs(r2) ** 2 - max_height ** 2)
+        right_thickness += np.abs(r2) - np.sqrt(max(r2 ** 2 - max_height ** 2, 0))
 
     center_shift = right_thickness - left_thickness
     total_thickness = right_thickness + left_thickness
@@ -296,7 +297,10 @@ def spherical_mirror(radius: float, thickness: float, **kwargs) -> cg.Intersecta
         dl = aperture / 2
 
     if np.isfinite(radius):
-        aperture_front_thickness = abs(radius) - np.sqrt(radius ** 2 - (l + dl) ** 2)
+        # l + dl is an upper limit of how far the aperture extends, and can exceed the radius
+        aperture_front_thickness = abs(radius) - np.sqrt(
+            max(radius ** 2 - (l + dl) ** 2, 0)
+        )
     else:
         # for a plane mirror this part of the aperture is cut off by the mirror surface
         aperture_front_thickness = l + dl
-- 
2.43.0


From abd8e32fc6fc5ef8b245292796a7e34afb56c208 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:33:05 +0000
Subject: [PATCH 38/41] fix: a transform that cannot be inverted leaves the
 object unchanged

---
 tinygfx/g3d/world_objects.py | 13 +++++++++----
 1 file changed, 9 insertions(+), 4 deletions(-)

diff --git a/tinygfx/g3d/world_objects.py b/tinygfx/g3d/world_objects.py
index 7fe2f24..c1461cc 100644
--- a/tinygfx/g3d/world_objects.py
+++ b/tinygfx/g3d/world_objects.py
@@ -124,10 +124,15 @@ class WorldObject(CountedObject):
         )
 
     def _append_world_transform(self, new_transform):
-        self._world_coordinate_transform = np.matmul(
-            new_transform, self._world_coordinate_transform
-        )
-        self._notify_watchers()
+        previous_transform = self._world_coordinate_transform
+        self._world_coordinate_transform = np.matmul(new_transform, previous_transform)
+        try:
+            self._notify_watchers()
+        except (ValueError, linalg.LinAlgError):
+            # the object cannot be transformed this way, so it stays where it was
+            self._world_coordinate_transform = previous_transform
+            self._notify_watchers()
+            raise
 
     def _notify_watchers(self):
         # update the functions in the watch list
-- 
2.43.0


From 836ce7eeec2a2c47f40da458c087b57f98d8f01a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:33:07 +0000
Subject: [PATCH 39/41] fix: changing a position or orientation that was handed
 out does not change the object's

---
 tinygfx/g3d/world_objects.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/tinygfx/g3d/world_objects.py b/tinygfx/g3d/world_objects.py
index c1461cc..d49cb91 100644
--- a/tinygfx/g3d/world_objects.py
+++ b/tinygfx/g3d/world_objects.py
@@ -145,7 +145,7 @@ class WorldObject(CountedObject):
                 self._world_coordinate_transform, self._obj_origin
             )
             self._pos_valid = True
-        return self._world_origin
+        return copy.copy(self._world_origin)
 
     def get_orientation(self):
         # check if we need to update the direction vector
@@ -159,7 +159,7 @@ class WorldObject(CountedObject):
             else:
                 self._world_direction = world_dir / norm
 
-        return self._world_direction
+        return copy.copy(self._world_direction)
 
     def get_quaternion(self):
         # make a rotation object
-- 
2.43.0


From 3c70c45c42a66d9266a1d83c53118c5266ba6233 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:33:11 +0000
Subject: [PATCH 40/41] fix: deep copies of surfaces have ids of their own

---
 tinygfx/g3d/world_objects.py | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/tinygfx/g3d/world_objects.py b/tinygfx/g3d/world_objects.py
index d49cb91..e311005 100644
--- a/tinygfx/g3d/world_objects.py
+++ b/tinygfx/g3d/world_objects.py
@@ -30,6 +30,14 @@ class CountedObject(object):
         super().__init__(*args, **kwargs)  # call the next constructor in the MRO
         self._id = next(self._ids)
 
+    def __deepcopy__(self, memo):
+        # a copy is another object, so it needs an id of its own
+        duplicate = self.__class__.__new__(self.__class__)
+        memo[id(self)] = duplicate
+        duplicate.__dict__.update(copy.deepcopy(self.__dict__, memo))
+        duplicate._id = next(self._ids)
+        return duplicate
+
     def get_id(self):
         """
         Gets the class specific object ID number for this instance.
-- 
2.43.0


From aa21b111bf6eae465c334276d7d11e5cb01e6eeb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:03:46 +0000
Subject: [PATCH 41/41] fix: surfaces restored from a pickle have ids of their
 own

---
 tinygfx/g3d/world_objects.py | 11 ++++-------
 1 file changed, 4 insertions(+), 7 deletions(-)

diff --git a/tinygfx/g3d/world_objects.py b/tinygfx/g3d/world_objects.py
index e311005..b58470c 100644
--- a/tinygfx/g3d/world_objects.py
+++ b/tinygfx/g3d/world_objects.py
@@ -30,13 +30,10 @@ class CountedObject(object):
         super().__init__(*args, **kwargs)  # call the next constructor in the MRO
         self._id = next(self._ids)
 
-    def __deepcopy__(self, memo):
-        # a copy is another object, so it needs an id of its own
-        duplicate = self.__class__.__new__(self.__class__)
-        memo[id(self)] = duplicate
-        duplicate.__dict__.update(copy.deepcopy(self.__dict__, memo))
-        duplicate._id = next(self._ids)
-        return duplicate
+    def __setstate__(self, state):
+        # a copied or unpickled object is another object, so it needs an id of its own
+        self.__dict__.update(state)
+        self._id = next(self._ids)
 
     def get_id(self):
         """
-- 
2.43.0

