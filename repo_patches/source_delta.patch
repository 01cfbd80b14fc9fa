From 4284ef59a866e989783627d3f69248cbb631d6fd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 21:58:39 +0000
Subject: [PATCH 01/21] fix: accept a transform array in Assembly.add_object()
 and add_assembly()

Comparing an array to None with == is elementwise, so its truth value raised.
---
 tracer/assembly.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/tracer/assembly.py b/tracer/assembly.py
index 38afc30..5e618e6 100644
--- a/tracer/assembly.py
+++ b/tracer/assembly.py
@@ -72,7 +72,7 @@ class Assembly(HasFrame):
         transform - the transformation matrix (as an array object) that describes 
             the object in the coordinate system of the Assembly
         """
-        if transform == None:
+        if transform is None:
             transform = N.eye(4)
         self._objects.append(object)
         object.set_transform(transform)
@@ -86,7 +86,7 @@ class Assembly(HasFrame):
         transform - the transformation matrix (as an array object) that describes the 
             new assembly in the coordinate system of the current assembly
         """
-        if transform == None:
+        if transform is None:
             transform = N.eye(4)
         self._assemblies.append(assembly)
         assembly.set_transform(transform)
-- 
2.43.0


From 08c7caeea9fd314b5614b30a71e1600d06c9c59d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 21:58:39 +0000
Subject: [PATCH 02/21] fix: select the right hit per ray in HemisphereGM

nonzero() goes row by row, so the intersection indices came out sorted
rather than in ray order when rays with a first hit and rays with a second hit
were mixed in one bundle.
---
 tracer/sphere_surface.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/tracer/sphere_surface.py b/tracer/sphere_surface.py
index 2294d7a..673625d 100644
--- a/tracer/sphere_surface.py
+++ b/tracer/sphere_surface.py
@@ -112,7 +112,7 @@ class HemisphereGM(SphericalGM):
         
         select[~N.logical_or(*bottom_hem)] = N.nan
         one_hit = N.logical_xor(*bottom_hem)
-        select[one_hit] = N.nonzero(bottom_hem[:,one_hit])[0]
+        select[one_hit] = N.nonzero(bottom_hem.T[one_hit,:])[1]
         
         return select
     
-- 
2.43.0


From b85f466eeda0033e017c1ae3c4f18fe08ce211ba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 21:58:39 +0000
Subject: [PATCH 03/21] fix: select the right hit per ray in CutSphereGM

Same problem as in HemisphereGM.
---
 tracer/sphere_surface.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/tracer/sphere_surface.py b/tracer/sphere_surface.py
index 673625d..a899be7 100644
--- a/tracer/sphere_surface.py
+++ b/tracer/sphere_surface.py
@@ -175,7 +175,7 @@ class CutSphereGM(SphericalGM):
         in_bd &= prm > 0
         select[~N.logical_or(*in_bd)] = N.nan
         one_hit = N.logical_xor(*in_bd)
-        select[one_hit] = N.nonzero(in_bd[:,one_hit])[0]
+        select[one_hit] = N.nonzero(in_bd.T[one_hit,:])[1]
         
         return select
 
-- 
2.43.0


From fbd05fc778820f73599c56d22894fb54ebc8548e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 21:58:39 +0000
Subject: [PATCH 04/21] fix: check points in the local frame of
 BoundaryCylinder

The points were moved by the frame rather than by its inverse, any number of
points other than 3 raised, and the rotation argument was ignored.
---
 tracer/boundary_shape.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/tracer/boundary_shape.py b/tracer/boundary_shape.py
index 83880d7..30b3219 100644
--- a/tracer/boundary_shape.py
+++ b/tracer/boundary_shape.py
@@ -107,7 +107,7 @@ class BoundaryCylinder(BoundaryShape):
         intersection points are valid.
         """
         self._R = diameter/2.
-        BoundaryShape.__init__(self, location, None)
+        BoundaryShape.__init__(self, location, rotation)
     
     def in_bounds(self, vertices):
         """
@@ -117,8 +117,8 @@ class BoundaryCylinder(BoundaryShape):
         Arguments: 
         vertices - an array of the points to check for inclusion, (n,3)
         """
-        local_xy = N.dot(self._temp_frame[:2], 
-            N.vstack((vertices.T, N.ones(vertices.shape[1]))))
+        local_xy = N.dot(N.linalg.inv(self._temp_frame)[:2], 
+            N.vstack((vertices.T, N.ones(vertices.shape[0]))))
         return N.sum(local_xy**2, axis=0) <= self._R**2
 
 class BoundaryPlane(BoundaryShape):
-- 
2.43.0


From 6f5785ddf29e5bc302eff0d85b294c5fe4d33d85 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 21:58:39 +0000
Subject: [PATCH 05/21] fix: use the distance from the plane in
 BoundarySphere.bounding_rect_for_plane()

The effective radius compared a global and a local Z coordinate, and a sphere
that was moved by its container raised.
---
 tracer/boundary_shape.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/tracer/boundary_shape.py b/tracer/boundary_shape.py
index 30b3219..e9ab51f 100644
--- a/tracer/boundary_shape.py
+++ b/tracer/boundary_shape.py
@@ -95,8 +95,8 @@ class BoundarySphere(BoundaryShape):
         Returns:
         xmin, xmax, ynin, ymax - of the rect, in the xy plane of the frame,
         """
-        cent_proj = N.dot(N.linalg.inv(transform), N.append(self._temp_loc, 1))
-        Reff = N.sqrt(self._radius**2 - (self._temp_loc[2] - cent_proj[2])**2)
+        cent_proj = N.dot(N.linalg.inv(transform), N.append(self._temp_loc[:3], 1))
+        Reff = N.sqrt(self._radius**2 - cent_proj[2]**2)
         return cent_proj[0] - Reff, cent_proj[0] + Reff, \
             cent_proj[1] - Reff, cent_proj[1] + Reff
 
-- 
2.43.0


From f2180216b454ea2edb573123c6a11fc7e103dc04 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 21:58:39 +0000
Subject: [PATCH 06/21] fix: give every ray of square_bundle() a direction

The grid is square, so it does not have num_rays points unless that is a
perfect square.
---
 tracer/sources.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/tracer/sources.py b/tracer/sources.py
index 1444882..35276dd 100644
--- a/tracer/sources.py
+++ b/tracer/sources.py
@@ -96,11 +96,11 @@ def square_bundle(num_rays, center, direction, width):
     A RayBundle object with the above charachteristics set.
     """
     rot = rotation_to_z(direction)
-    directions = N.tile(direction[:,None], (1, num_rays))
     range = N.s_[-width:width:float(2*width)/N.sqrt(num_rays)]
     xs, ys = N.mgrid[range, range]
     vertices_local = N.array([xs.flatten(),  ys.flatten(),  N.zeros(len(xs.flatten()))])
     vertices_global = N.dot(rot,  vertices_local)
+    directions = N.tile(direction[:,None], (1, vertices_local.shape[1]))
 
     rayb = RayBundle()
     rayb.set_vertices(vertices_global + center)
-- 
2.43.0


From de7f9285952c7277ca96d583f0f009b2ad010972 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 21:59:09 +0000
Subject: [PATCH 07/21] fix: keep face positions aligned when
 TriangulatedSurface drops degenerate faces

The faces after a dropped one were placed at the first vertex of another face.
---
 tracer/models/triangulated_surface.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/tracer/models/triangulated_surface.py b/tracer/models/triangulated_surface.py
index 7984f63..0b3db91 100644
--- a/tracer/models/triangulated_surface.py
+++ b/tracer/models/triangulated_surface.py
@@ -28,6 +28,7 @@ class TriangulatedSurface(AssembledObject):
         edges = vertices[faces[:,1:],:] - pos[:,None,:]
         edge_norms = np.sqrt(np.sum(edges**2, axis=2))
         non_degenerate = np.all(abs(edge_norms) > 1e-8, axis=1)
+        pos = pos[non_degenerate]
         edges = edges[non_degenerate]
         edge_norms = edge_norms[non_degenerate]
         
@@ -39,6 +40,7 @@ class TriangulatedSurface(AssembledObject):
         zs = zs[non_collinear]
         ys = np.cross(zs, xs)
         edges = edges[non_collinear]
+        pos = pos[non_collinear]
         
         rots = np.concatenate((xs[...,None], ys[...,None], zs[...,None]), axis=2)
         edges_local = np.sum(rots.transpose(0,2,1)[:,None,...]*\
-- 
2.43.0


From ab4c7ac0cce6dd49619326740ba364e1c4691980 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 21:59:09 +0000
Subject: [PATCH 08/21] fix: make RayTree.ray_history() callable and complete

It lacked the self argument, used float indices and stopped one bundle short of
the source.
---
 tracer/trace_tree.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/tracer/trace_tree.py b/tracer/trace_tree.py
index bdd425e..3b10a66 100644
--- a/tracer/trace_tree.py
+++ b/tracer/trace_tree.py
@@ -31,7 +31,7 @@ class RayTree(object):
         """
         return [bund.get_parents() for bund in self._bunds[1:]]
     
-    def ray_history(ray_index, level=None):
+    def ray_history(self, ray_index, level=None):
         """
         Return, in reverse order, all the indices into ray bundles starting
         from the given ray, going back to the original bundle. Starts with the
@@ -43,12 +43,12 @@ class RayTree(object):
             defaults to last bundle.
         """
         if level is None:
-            level = self.num_bunds()
+            level = self.num_bunds() - 1
         
-        parents = np.empty(level)
+        parents = np.empty(level + 1, dtype=np.int_)
         parents[0] = ray_index
         
-        for pix in xrange(1, level):
+        for pix in xrange(1, level + 1):
             parents[pix] = \
                 self._bunds[level - pix + 1].get_parents()[parents[pix - 1]]
         
-- 
2.43.0


From 14318972ced6ebf1e0dcf5fe65f48d06a84e7d9d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 21:59:09 +0000
Subject: [PATCH 09/21] fix: return an empty bundle from RefractiveHomogenous
 for an empty selection

empty_bund() is a method of RayBundle, not a function of its module.
---
 tracer/optics_callables.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/tracer/optics_callables.py b/tracer/optics_callables.py
index 2c2ead4..b32102e 100644
--- a/tracer/optics_callables.py
+++ b/tracer/optics_callables.py
@@ -128,7 +128,7 @@ class RefractiveHomogenous(object):
     
     def __call__(self, geometry, rays, selector):
         if len(selector) == 0:
-            return ray_bundle.empty_bund()
+            return ray_bundle.RayBundle.empty_bund()
         
         n1 = rays.get_ref_index()[selector]
         n2 = self.toggle_ref_idx(n1)
-- 
2.43.0


From cbab1e7f326987972241410c6b96ac8348de9e81 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 21:59:09 +0000
Subject: [PATCH 10/21] fix: include the last term of the Hartmann formula in
 refr_idx_hartmann()

---
 tracer/optics.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/tracer/optics.py b/tracer/optics.py
index 176be57..7814371 100644
--- a/tracer/optics.py
+++ b/tracer/optics.py
@@ -94,4 +94,4 @@ def refr_idx_hartmann(wavelength, a, b, c, d, e):
     
     where L is the wavelength.
     """
-    return a + b/(c - wavelength) 
+    return a + b/(c - wavelength) + d/(e - wavelength)
-- 
2.43.0


From 6c2ee9cb8445ab226c011002b30b32a5a59c4474 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 21:59:09 +0000
Subject: [PATCH 11/21] fix: ignore self-hits of a ray regardless of the other
 rays in the bundle

Hits between 1e-10 and 1e-6 were ignored only if some other ray of the bundle
had a hit below 1e-10.
---
 tracer/tracer_engine.py | 4 +---
 1 file changed, 1 insertion(+), 3 deletions(-)

diff --git a/tracer/tracer_engine.py b/tracer/tracer_engine.py
index 3c99dd9..2483197 100644
--- a/tracer/tracer_engine.py
+++ b/tracer/tracer_engine.py
@@ -65,9 +65,7 @@ class TracerEngine():
         
         # If parameter == 0, ray does not actually hit object, but originates from there; 
         # so it should be ignored in considering intersections 
-        if (stack <= 1e-10).any():
-            zeros = N.where(stack <= 1e-6)
-            stack[zeros] = N.inf
+        stack[stack <= 1e-6] = N.inf
 
         # Find the smallest parameter for each ray, and use that as the final one,
         # returns the indices.  If an entire column of the stack is N.inf (the ray misses
-- 
2.43.0


From c6869e43c23c5e6b591c75c915ec4fc599da5c38 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 21:59:09 +0000
Subject: [PATCH 12/21] fix: let AbsorptionAccountant.get_all_hits() handle
 empty hit records

When all recorded selections were empty there was nothing left to stack.
---
 tracer/optics_callables.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/tracer/optics_callables.py b/tracer/optics_callables.py
index b32102e..f8afa1e 100644
--- a/tracer/optics_callables.py
+++ b/tracer/optics_callables.py
@@ -66,7 +66,7 @@ class AbsorptionAccountant(object):
         absorbed - the energy absorbed by each hit-point
         hits - the corresponding global coordinates for each hit-point.
         """
-        if not len(self._absorbed):
+        if not any(len(a) for a in self._absorbed):
             return N.array([]), N.array([]).reshape(3,0)
         
         return N.hstack([a for a in self._absorbed if len(a)]), \
-- 
2.43.0


From d1714038e8929582feb1c8f9124d17181c37e66e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 21:59:09 +0000
Subject: [PATCH 13/21] fix: make SphericalLens with a planar front
 constructible and as deep as asked

The planar front raised a NameError; it also has to be placed at the lens depth
from the back surface, with the rim reaching it.
---
 tracer/models/spherical_lens.py | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/tracer/models/spherical_lens.py b/tracer/models/spherical_lens.py
index 7f39902..0709b6e 100644
--- a/tracer/models/spherical_lens.py
+++ b/tracer/models/spherical_lens.py
@@ -44,7 +44,7 @@ class SphericalLens(AssembledObject):
             self._front = Surface(
                 RoundPlateGM(diameter/2.),
                 Refractive(1., refr_idx))
-            R1 = B.inf
+            R1 = N.inf
         else:
             z = N.sqrt(R1**2 - diameter**2/4.) # location of cut plane
             if R1 > 0:
@@ -101,6 +101,12 @@ class SphericalLens(AssembledObject):
             
             cyl_loc += (locf + sect1.get_location()[2])/2.
             cyl_height += locf + sect1.get_location()[2]
+        else:
+            locf = pd + depth
+            self._front.set_location(N.r_[0., 0., locf])
+            
+            cyl_loc += locf/2.
+            cyl_height += locf
         
         # Create the bounding cylinder:
         if cyl_height > 0:
-- 
2.43.0


From 741fe43ece835e0694f44ed0df7d275be6cc0e97 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:00:02 +0000
Subject: [PATCH 14/21] fix: keep an own float copy of the transform given to
 HasFrame.set_transform()

setting the location or rotation writes into the stored array. When that array
was shared (as by the receiver and homogenizer of HomogenizedLocalReceiver) the
other object moved too, and when it was of integers (as returned by
translate(0, 0, 1)) the new location or rotation was truncated.
---
 tracer/has_frame.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/tracer/has_frame.py b/tracer/has_frame.py
index 8bd0259..1c30492 100644
--- a/tracer/has_frame.py
+++ b/tracer/has_frame.py
@@ -59,7 +59,7 @@ class HasFrame(object):
         
         Arguments:
         transform - a 2D array defining the 4 by 4 transformation matrix."""
-        self._transform = transform
+        self._transform = N.array(transform, dtype=N.float_)
         self._loc = self._transform[:3,3]
         self._rot = self._transform[:3,:3]
 
-- 
2.43.0


From 054a63830adf9583707121f800e36c6979e71efa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:00:02 +0000
Subject: [PATCH 15/21] fix: do not hold on to the arrays given to
 HasFrame.set_location() and set_rotation()

A later change by the caller to its own array changed the location or rotation
read back, but not the transform.
---
 tracer/has_frame.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/tracer/has_frame.py b/tracer/has_frame.py
index 1c30492..c21a3c3 100644
--- a/tracer/has_frame.py
+++ b/tracer/has_frame.py
@@ -43,15 +43,15 @@ class HasFrame(object):
         """Sets the location within the object"""
         if location.shape != (3, ):
             raise ValueError("location must be a 1D 3-component array")
-        self._loc = location
         self._transform[:3,3] = location
+        self._loc = self._transform[:3,3]
     
     def set_rotation(self,  rotation):
         """Sets the rotation within the object"""
         if  rotation.shape != (3, 3):
             raise ValueError("rotation must be a 3x3 array")
-        self._rot = rotation
         self._transform[:3,:3] = rotation
+        self._rot = self._transform[:3,:3]
 
     def set_transform(self, transform):
         """Defines the transformation matrix the puts the surface into the coordinates of the
-- 
2.43.0


From 75d39c3fa800a3bc057ece83c9fd4c5aca9732c5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:54:47 +0000
Subject: [PATCH 16/21] fix: keep rounding from making fresnel() return NaN at
 normal incidence

---
 tracer/optics.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/tracer/optics.py b/tracer/optics.py
index 7814371..6195c09 100644
--- a/tracer/optics.py
+++ b/tracer/optics.py
@@ -22,7 +22,7 @@ def fresnel(ray_dirs, normals, n1, n2):
     R - the reflectance of a homogenously-polarized light ray with the given
         parameters.
     """ 
-    theta_in = N.arccos(N.abs((normals*ray_dirs).sum(axis=0)))
+    theta_in = N.arccos(N.minimum(1., N.abs((normals*ray_dirs).sum(axis=0))))
     # Factor out common terms in Fresnel's equations:
     foo = N.cos(theta_in) 
     bar = N.sqrt(1 - (n1/n2 * N.sin(theta_in))**2)
-- 
2.43.0


From d6a9fdd2db054a3eb853649034c1bd7b409d20e4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:08:28 +0000
Subject: [PATCH 17/21] fix: copy the properties a ray bundle inherits for all
 rays, as documented

---
 tracer/ray_bundle.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/tracer/ray_bundle.py b/tracer/ray_bundle.py
index 4e60d54..b25ac3d 100644
--- a/tracer/ray_bundle.py
+++ b/tracer/ray_bundle.py
@@ -140,7 +140,7 @@ class RayBundle:
         
         for p, v in base_vals.iteritems():
             if base_vals[p] is None and hasattr(self, '_' + p):
-                base_vals[p] = self.__dict__['get_' + p](selector)
+                base_vals[p] = N.array(self.__dict__['get_' + p](selector))
         
         return RayBundle(**base_vals)
 
-- 
2.43.0


From 594c311750beef85790a022de3381ec868aa1654 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:09:42 +0000
Subject: [PATCH 18/21] fix: let an assembly without objects list its (no)
 surfaces

---
 tracer/assembly.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/tracer/assembly.py b/tracer/assembly.py
index 5e618e6..4c9acc7 100644
--- a/tracer/assembly.py
+++ b/tracer/assembly.py
@@ -61,7 +61,7 @@ class Assembly(HasFrame):
         self.get_objects()
         """
         return reduce(operator.add, 
-            [obj.get_surfaces() for obj in self.get_objects()])
+            [obj.get_surfaces() for obj in self.get_objects()], [])
 
     def add_object(self, object, transform=None):
         """
-- 
2.43.0


From 757ce0e389f5e1f3e3abb8c486cdc6025b3f6546 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:50:09 +0000
Subject: [PATCH 19/21] fix: trace through a model without surfaces

The minimum over no surfaces raised ValueError instead of letting every ray escape.
---
 tracer/tracer_engine.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/tracer/tracer_engine.py b/tracer/tracer_engine.py
index 2483197..dcd41b5 100644
--- a/tracer/tracer_engine.py
+++ b/tracer/tracer_engine.py
@@ -70,7 +70,7 @@ class TracerEngine():
         # Find the smallest parameter for each ray, and use that as the final one,
         # returns the indices.  If an entire column of the stack is N.inf (the ray misses
         # any surfaces), then take that column to be all False
-        stack = ((stack == stack.min(axis=0)) & ~N.isinf(stack))
+        stack = ((stack == stack.min(axis=0, initial=N.inf)) & ~N.isinf(stack))
         
         return stack, owned_rays
 
-- 
2.43.0


From a22e3d46f4877a683e1b4164031990cc8c215cbe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:43:48 +0000
Subject: [PATCH 20/21] fix: leave out collinear faces of a TriangulatedSurface
 despite rounding

The normal was scaled to unit length before it was tested for being nearly zero.
---
 tracer/models/triangulated_surface.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/tracer/models/triangulated_surface.py b/tracer/models/triangulated_surface.py
index 0b3db91..f6705d6 100644
--- a/tracer/models/triangulated_surface.py
+++ b/tracer/models/triangulated_surface.py
@@ -33,11 +33,11 @@ class TriangulatedSurface(AssembledObject):
         edge_norms = edge_norms[non_degenerate]
         
         xs = edges[:,0] / edge_norms[:,0,None]
-        zs = np.cross(xs, edges[:,1])
-        zs /= np.sqrt((zs**2).sum(-1))[:,None]
+        zs = np.cross(xs, edges[:,1] / edge_norms[:,1,None])
         non_collinear = np.any(abs(zs) > 1e-6, axis=1)
         xs = xs[non_collinear]
         zs = zs[non_collinear]
+        zs /= np.sqrt((zs**2).sum(-1))[:,None]
         ys = np.cross(zs, xs)
         edges = edges[non_collinear]
         pos = pos[non_collinear]
-- 
2.43.0


From 06b0d2fe40372a0e66372e32d0fd80618147c67f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:07:45 +0000
Subject: [PATCH 21/21] fix: join ray properties of any rank along their last
 axis, that of the rays

RayBundle addition and concatenate_rays() used hstack, which joins along the
second axis: properties of three or more dimensions got their rays mixed up,
or failed to join.
---
 tracer/ray_bundle.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/tracer/ray_bundle.py b/tracer/ray_bundle.py
index b25ac3d..04d1ab5 100644
--- a/tracer/ray_bundle.py
+++ b/tracer/ray_bundle.py
@@ -161,9 +161,9 @@ class RayBundle:
                     newbund._create_property(attr[1:], None)
                 
                 # Do addition.
-                newbund.__dict__['set' + attr](N.hstack((
+                newbund.__dict__['set' + attr](N.concatenate((
                     self.__dict__['get' + attr](),
-                    added.__dict__['get' + attr]() )) )
+                    added.__dict__['get' + attr]() ), axis=-1))
         
         return newbund
 
@@ -217,8 +217,8 @@ def concatenate_rays(bundles):
             
             # This is the actual concatenation:
             getter = 'get' + attr
-            newbund.__dict__['set' + attr](N.hstack(
-                [b.__dict__[getter]() for b in bundles]))
+            newbund.__dict__['set' + attr](N.concatenate(
+                [b.__dict__[getter]() for b in bundles], axis=-1))
     
     return newbund
 
-- 
2.43.0

