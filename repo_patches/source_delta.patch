From 739543f4c708b0527109572fb404c3ed04ef1c9b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:16:29 +0000
Subject: [PATCH 01/54] fix: keep links consistent when splitting an edge and
 return the half-edge starting in the previous origin

---
 src/halfedge/mesh/builder/builder.rs | 22 ++++++++++++++++------
 1 file changed, 16 insertions(+), 6 deletions(-)

diff --git a/src/halfedge/mesh/builder/builder.rs b/src/halfedge/mesh/builder/builder.rs
index 4f10605..b71f713 100644
--- a/src/halfedge/mesh/builder/builder.rs
+++ b/src/halfedge/mesh/builder/builder.rs
@@ -127,28 +127,38 @@ impl<T: HalfEdgeImplMeshType> MeshBuilder<T> for HalfEdgeMeshImpl<T> {
         let f1 = self.edge(e).face_id();
         let f2 = self.edge(twin_id).face_id();
         let mut last_v = self.edge(e).origin_id();
-        let mut first = true;
+        let dangling = current == twin_id;
+        let mut first = None;
         for (ep1, ep2, vp) in ps {
-            let (v, e1, e2) =
-                self.add_vertex_via_edge(current, self.edge(current).twin_id(), vp, ep1, ep2);
+            let (v, e1, e2) = self.add_vertex_via_edge(current, current_twin, vp, ep1, ep2);
             current = e1;
             current_twin = e2;
             last_v = v;
             self.edge_mut(current).set_face(f1);
             self.edge_mut(current_twin).set_face(f2);
-            if first {
+            if first.is_none() {
                 self.vertex_mut(self.edge(e).origin_id()).set_edge(e1);
-                first = false;
+                first = Some((e1, e2));
             }
         }
 
+        let Some((e1, e2)) = first else {
+            return e;
+        };
+
+        if dangling {
+            // nothing else is attached to the origin, so the chain turns around there
+            self.edge_mut(e1).set_prev(e2);
+            self.edge_mut(e2).set_next(e1);
+        }
+
         self.edge_mut(current).set_next(e);
         self.edge_mut(e).set_prev(current);
         self.edge_mut(current_twin).set_prev(twin_id);
         self.edge_mut(twin_id).set_next(current_twin);
         self.edge_mut(e).set_origin(last_v);
 
-        return e;
+        return e1;
     }
 
     fn add_vertex(&mut self, vp: T::VP) -> T::V {
-- 
2.43.0


From ba2fa255ccec938f5501dcdbdcd295c6e2767a8b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:20:40 +0000
Subject: [PATCH 02/54] fix: close the open side of a dihedron instead of the
 already closed one

---
 src/halfedge/primitives/mod.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/halfedge/primitives/mod.rs b/src/halfedge/primitives/mod.rs
index 016fc86..fb256fd 100644
--- a/src/halfedge/primitives/mod.rs
+++ b/src/halfedge/primitives/mod.rs
@@ -22,7 +22,7 @@ where
 
     fn insert_dihedron(&mut self, vp: impl IntoIterator<Item = T::VP>) -> T::E {
         let first = self.insert_polygon(vp);
-        self.close_hole(self.edge(first).twin_id(), Default::default(), false);
+        self.close_hole(first, Default::default(), false);
         first
     }
 }
-- 
2.43.0


From 1dd56f22306b3e5f43d26d5cb400a721fb41a42d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:20:40 +0000
Subject: [PATCH 03/54] fix: let antiprisms extrude the open side of their base
 polygon

---
 src/primitives/prismatoid.rs | 11 +++--------
 1 file changed, 3 insertions(+), 8 deletions(-)

diff --git a/src/primitives/prismatoid.rs b/src/primitives/prismatoid.rs
index 7dfb468..c6f9584 100644
--- a/src/primitives/prismatoid.rs
+++ b/src/primitives/prismatoid.rs
@@ -74,15 +74,10 @@ where
     /// of the top polygon will be slightly smaller!
     fn insert_antiprism(&mut self, vp: impl IntoIterator<Item = T::VP>, height: T::S) -> T::E {
         let first = self.insert_polygon(vp);
-        let f = self
-            .edge(first)
-            .face(self)
-            .expect("The polygon must have a face");
+        let twin = self.edge(first).twin(self);
+        let f = twin.face(self).expect("The polygon must have a face");
         let normal = f.normal(self).normalize();
-        let e = self.extrude_tri2(
-            self.edge(first).twin_id(),
-            T::Trans::from_translation(-normal * height),
-        );
+        let e = self.extrude_tri2(first, T::Trans::from_translation(-normal * height));
         e
     }
 
-- 
2.43.0


From 4e500f26cd5b5d04225591b5ef7d43ea72b77219 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:25:25 +0000
Subject: [PATCH 04/54] fix: report the remaining length of a partially
 consumed edge iterator

---
 src/halfedge/edge/iterator.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/halfedge/edge/iterator.rs b/src/halfedge/edge/iterator.rs
index fbf1281..a34580c 100644
--- a/src/halfedge/edge/iterator.rs
+++ b/src/halfedge/edge/iterator.rs
@@ -55,7 +55,7 @@ impl<'a, T: HalfEdgeImplMeshType> Iterator for ForwardEdgeIterator<'a, T> {
     #[inline(always)]
     fn size_hint(&self) -> (usize, Option<usize>) {
         let mut curr = self.current.clone();
-        let mut len = 1;
+        let mut len = if self.is_first { 1 } else { 0 };
         while curr.next(self.mesh).id() != self.first {
             len += 1;
             curr = curr.next(self.mesh);
-- 
2.43.0


From 622a77f60b295b3f3c8897ce5d3e1c479f267fad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:25:25 +0000
Subject: [PATCH 05/54] fix: keep links consistent when flipping an edge with a
 dangling end

---
 src/halfedge/edge/halfedge.rs | 20 +++++++++++++++-----
 1 file changed, 15 insertions(+), 5 deletions(-)

diff --git a/src/halfedge/edge/halfedge.rs b/src/halfedge/edge/halfedge.rs
index 18921e4..e3aaf72 100644
--- a/src/halfedge/edge/halfedge.rs
+++ b/src/halfedge/edge/halfedge.rs
@@ -135,16 +135,26 @@ impl<T: HalfEdgeImplMeshType> HalfEdge<T> for HalfEdgeImpl<T> {
         let target_id = mesh.edge(e).target_id(mesh);
 
         let edge = mesh.edge(e);
-        let next_id = edge.next;
-        let prev_id = edge.prev;
         let face_id = edge.face_id();
         let twin_id = edge.twin_id();
-
         let twin = mesh.edge(twin_id);
-        let t_next_id = twin.next;
-        let t_prev_id = twin.prev;
         let t_face_id = twin.face_id();
 
+        // at dangling ends the two halfedges are each other's neighbors and swap as well
+        let swapped = |id: T::E| {
+            if id == e {
+                twin_id
+            } else if id == twin_id {
+                e
+            } else {
+                id
+            }
+        };
+        let next_id = swapped(edge.next);
+        let prev_id = swapped(edge.prev);
+        let t_next_id = swapped(twin.next);
+        let t_prev_id = swapped(twin.prev);
+
         let edge = mesh.edge_mut(e);
         edge.next = t_next_id;
         edge.prev = t_prev_id;
-- 
2.43.0


From 1e87979caaa5bf41f3f5c1f65529e2d7e15eb650 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:46:41 +0000
Subject: [PATCH 06/54] fix: build the dodecahedron on the open side of its
 first pentagon

---
 src/primitives/sphere.rs | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/primitives/sphere.rs b/src/primitives/sphere.rs
index ec2016a..b2501e6 100644
--- a/src/primitives/sphere.rs
+++ b/src/primitives/sphere.rs
@@ -80,14 +80,14 @@ where
 
         let mut mesh: Self = Make2dShape::polygon([
             make_vp(one, one, one),    // orange
-            make_vp(zero, phi, iphi),  // green
-            make_vp(-one, one, one),   // orange
-            make_vp(-iphi, zero, phi), // blue
             make_vp(iphi, zero, phi),  // blue
+            make_vp(-iphi, zero, phi), // blue
+            make_vp(-one, one, one),   // orange
+            make_vp(zero, phi, iphi),  // green
         ]);
 
         // TODO: polygon should return something more helpful
-        let start = mesh.shared_edge_id(T::V::new(1), T::V::new(0)).unwrap();
+        let start = mesh.shared_edge_id(T::V::new(4), T::V::new(0)).unwrap();
         let start_middle = mesh.loft_polygon_back(
             start,
             3,
-- 
2.43.0


From cdb18e14bafaf80b1babaa24052365cb1a82fd36 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:46:41 +0000
Subject: [PATCH 07/54] fix: give the dodecahedron the requested circumradius

---
 src/primitives/sphere.rs | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/src/primitives/sphere.rs b/src/primitives/sphere.rs
index b2501e6..65e2351 100644
--- a/src/primitives/sphere.rs
+++ b/src/primitives/sphere.rs
@@ -72,9 +72,10 @@ where
     fn dodecahedron(radius: T::S) -> Self {
         // https://en.wikipedia.org/wiki/Regular_dodecahedron#/media/File:Dodecahedron_vertices.svg
 
-        let phi = radius * T::S::PHI;
-        let iphi = radius / T::S::PHI;
-        let one = radius;
+        // the cube formed by the orange vertices has the circumradius sqrt(3) * one
+        let one = radius / T::S::THREE.sqrt();
+        let phi = one * T::S::PHI;
+        let iphi = one / T::S::PHI;
         let zero = T::S::ZERO;
         let make_vp = |x, y, z| T::VP::from_pos(T::Vec::from_xyz(x, y, z));
 
-- 
2.43.0


From 98feff1c0041ca41b066750a48ad77dc1126f0fc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:46:41 +0000
Subject: [PATCH 08/54] fix: start the geodesic tetrahedron with vertices at
 the requested radius

---
 src/primitives/sphere.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/primitives/sphere.rs b/src/primitives/sphere.rs
index 65e2351..cc4f237 100644
--- a/src/primitives/sphere.rs
+++ b/src/primitives/sphere.rs
@@ -200,7 +200,9 @@ where
     where
         T::Mesh: HalfEdgeSemiBuilder<T>,
     {
-        let mut mesh = Self::regular_tetrahedron(radius);
+        // edge length of the regular tetrahedron with the given circumradius
+        let l = T::S::FOUR * radius / (T::S::TWO * T::S::THREE).sqrt();
+        let mut mesh = Self::regular_tetrahedron(l);
         debug_assert!(mesh.centroid().is_about(&T::Vec::zero(), T::S::EPS));
         mesh.subdivision_frequency(
             SubdivisionDescription::new(n, 0),
-- 
2.43.0


From 9c6b164c8ca1e10d683dc55ebd55c21b45903434 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:46:41 +0000
Subject: [PATCH 09/54] fix: scale the centroid tolerance of geodesic spheres
 with the radius

---
 src/primitives/sphere.rs | 12 +++++++++---
 1 file changed, 9 insertions(+), 3 deletions(-)

diff --git a/src/primitives/sphere.rs b/src/primitives/sphere.rs
index cc4f237..35b10a4 100644
--- a/src/primitives/sphere.rs
+++ b/src/primitives/sphere.rs
@@ -187,7 +187,9 @@ where
         T::Mesh: HalfEdgeSemiBuilder<T>,
     {
         let mut mesh = Self::regular_icosahedron(icosahedron_r2a(radius));
-        debug_assert!(mesh.centroid().is_about(&T::Vec::zero(), T::S::EPS));
+        debug_assert!(mesh
+            .centroid()
+            .is_about(&T::Vec::zero(), T::S::EPS.sqrt() * radius));
         mesh.subdivision_frequency(
             SubdivisionDescription::new(n, 0),
             SlerpVertexInterpolator::new(T::Vec::zero(), radius),
@@ -203,7 +205,9 @@ where
         // edge length of the regular tetrahedron with the given circumradius
         let l = T::S::FOUR * radius / (T::S::TWO * T::S::THREE).sqrt();
         let mut mesh = Self::regular_tetrahedron(l);
-        debug_assert!(mesh.centroid().is_about(&T::Vec::zero(), T::S::EPS));
+        debug_assert!(mesh
+            .centroid()
+            .is_about(&T::Vec::zero(), T::S::EPS.sqrt() * radius));
         mesh.subdivision_frequency(
             SubdivisionDescription::new(n, 0),
             SlerpVertexInterpolator::new(T::Vec::zero(), radius),
@@ -217,7 +221,9 @@ where
         T::Mesh: HalfEdgeSemiBuilder<T>,
     {
         let mut mesh = Self::regular_octahedron(radius);
-        debug_assert!(mesh.centroid().is_about(&T::Vec::zero(), T::S::EPS));
+        debug_assert!(mesh
+            .centroid()
+            .is_about(&T::Vec::zero(), T::S::EPS.sqrt() * radius));
         mesh.subdivision_frequency(
             SubdivisionDescription::new(n, 0),
             SlerpVertexInterpolator::new(T::Vec::zero(), radius),
-- 
2.43.0


From 1de46f64d1e43b2b68dd68582ce4d52056b3970b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:46:41 +0000
Subject: [PATCH 10/54] fix: give uniform antiprisms sides with the length of
 the base edges

---
 src/primitives/prismatoid.rs | 10 ++++------
 1 file changed, 4 insertions(+), 6 deletions(-)

diff --git a/src/primitives/prismatoid.rs b/src/primitives/prismatoid.rs
index c6f9584..0e154d7 100644
--- a/src/primitives/prismatoid.rs
+++ b/src/primitives/prismatoid.rs
@@ -268,11 +268,9 @@ where
 
     /// Creates a uniform antiprism with given radius `r` and `n` sides.
     fn uniform_antiprism(r: T::S, n: usize) -> Self {
-        // TODO: isn't this the edge length?
-        Self::regular_antiprism(
-            r,
-            regular_polygon_sidelength(r, n) * T::S::THREE.sqrt() * T::S::HALF,
-            n,
-        )
+        // the top is rotated by half a side, so the sides are not vertical
+        let c = T::S::TWO * (T::S::PI / T::S::from_usize(2 * n)).cos();
+        let h = (T::S::ONE - T::S::ONE / (c * c)).sqrt();
+        Self::regular_antiprism(r, regular_polygon_sidelength(r, n) * h, n)
     }
 }
-- 
2.43.0


From 62884dd399c3d5af2d0c58cf0e31b3a4bb2c17a3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:48:27 +0000
Subject: [PATCH 11/54] fix: measure the planarity of faces by the distance
 from a plane, relative to their size

---
 src/mesh/face/face3d.rs | 37 ++++++++++++++++++++++++-------------
 1 file changed, 24 insertions(+), 13 deletions(-)

diff --git a/src/mesh/face/face3d.rs b/src/mesh/face/face3d.rs
index aaef6ef..889d071 100644
--- a/src/mesh/face/face3d.rs
+++ b/src/mesh/face/face3d.rs
@@ -32,24 +32,35 @@ pub trait Face3d<T: MeshType3D<Face = Self>>: FaceBasics<T> {
             .all_equal()
     }
 
-    /// Whether the face is planar.
+    /// Whether the face is planar, i.e., whether all vertices have a distance of
+    /// less than `eps` to a common plane.
     fn is_planar(&self, mesh: &T::Mesh, eps: T::S) -> bool {
-        // TODO: is this correct?
-        // TODO: collinear points cause problems
-
-        let three: Vec<_> = self.vertices(mesh).take(3).map(|v| v.pos()).collect();
-        let n = (three[1] - three[0]).cross(&(three[2] - three[0]));
-
-        self.vertices(mesh).skip(2).all(|v| {
-            let v = v.pos();
-            (v - three[0]).dot(&n).abs() < eps
-        })
+        let ps: Vec<_> = self.vertices(mesh).map(|v| v.pos()).collect();
+
+        // the largest triangle of the fan, since some of them might be degenerated
+        let mut n = T::Vec::zero();
+        for i in 2..ps.len() {
+            let c = (ps[i - 1] - ps[0]).cross(&(ps[i] - ps[0]));
+            if c.length_squared() > n.length_squared() {
+                n = c;
+            }
+        }
+        let length = n.length();
+        if length <= T::S::ZERO {
+            return true; // all vertices are collinear
+        }
+
+        ps.iter()
+            .all(|p| ((*p - ps[0]).dot(&n) / length).abs() < eps)
     }
 
     /// Whether the face is planar.
     fn is_planar2(&self, mesh: &T::Mesh) -> bool {
-        // TODO: eps?
-        self.is_planar(mesh, T::S::EPS.sqrt())
+        // the rounding errors are proportional to the size of the coordinates
+        let scale = self
+            .vertices(mesh)
+            .fold(T::S::ONE, |s, v| Scalar::max(&s, v.pos().length()));
+        self.is_planar(mesh, T::S::EPS.sqrt() * scale)
     }
 
     /// Whether the face is self-intersecting.
-- 
2.43.0


From 23b9236cfde86846da06012b8b6e4c41bebe9d27 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:56:58 +0000
Subject: [PATCH 12/54] fix: extrude every boundary of the mesh, whichever edge
 represents the adjacent face

---
 src/operations/extrude.rs | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/operations/extrude.rs b/src/operations/extrude.rs
index 43fc8a4..3adfe62 100644
--- a/src/operations/extrude.rs
+++ b/src/operations/extrude.rs
@@ -24,9 +24,9 @@ where
         T::VP: Transformable<D, Trans = T::Trans, S = T::S>,
         T: EuclideanMeshType<D, Mesh = Self>,
     {
-        let faces = self.face_ids().collect_vec();
-        for f in faces {
-            let e = self.face(f).edge(self).twin_id();
+        // each extrusion closes its whole boundary, so every boundary is extruded once
+        let edges = self.edge_ids().collect_vec();
+        for e in edges {
             if self.edge(e).is_boundary_self() {
                 self.extrude(e, transform);
             }
-- 
2.43.0


From 1d4a1ba2f62dbc5282e62360d8fb68768e1b1ef7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:11:05 +0000
Subject: [PATCH 13/54] fix: split the boundary side of edges when subdividing
 open meshes

---
 src/operations/subdivision.rs | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/operations/subdivision.rs b/src/operations/subdivision.rs
index 926aa8c..2103406 100644
--- a/src/operations/subdivision.rs
+++ b/src/operations/subdivision.rs
@@ -101,6 +101,12 @@ where
                     ],
                 );
                 self.subdivide_unsafe(edges[i].id(), vp, Default::default());
+
+                // at a boundary, there is no other face that would subdivide the twin
+                let twin = edges[i].twin_id();
+                if self.edge(twin).is_boundary_self() {
+                    self.subdivide_unsafe_try_fixup(twin, Default::default());
+                }
             }
 
             // remove the original face
-- 
2.43.0


From 177949049e0c2124e1e98a620078b8763fd78735 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:15:49 +0000
Subject: [PATCH 14/54] fix: check the convexity of the right corners when
 splitting a quad along its first diagonal

---
 src/tesselate/fixed_n.rs | 4 +---
 1 file changed, 1 insertion(+), 3 deletions(-)

diff --git a/src/tesselate/fixed_n.rs b/src/tesselate/fixed_n.rs
index 92e9007..e3f0046 100644
--- a/src/tesselate/fixed_n.rs
+++ b/src/tesselate/fixed_n.rs
@@ -65,11 +65,9 @@ pub fn min_weight_quad<V: IndexType, Vec2: Vector2D, Poly: Polygon<Vec2>>(
     let weight_diagonal_0_2 = vs[0].vec.distance_squared(&vs[2].vec);
     let weight_diagonal_1_3 = vs[1].vec.distance_squared(&vs[3].vec);
 
-    // TODO: Are the convexity checks correct? Or do they check the exact opposite?
-
     if weight_diagonal_0_2 <= weight_diagonal_1_3 {
         let vs1_3_convex =
-            vs[1].vec.convex(vs[2].vec, vs[0].vec) && vs[3].vec.convex(vs[0].vec, vs[2].vec);
+            vs[1].vec.convex(vs[0].vec, vs[2].vec) && vs[3].vec.convex(vs[2].vec, vs[0].vec);
         if vs1_3_convex {
             // insert the diagonal 0-2
             indices.insert_triangle(vs[0].index, vs[1].index, vs[2].index);
-- 
2.43.0


From 45fcd4361fbccf8113a8b30197ab4c531fd35ad0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:15:49 +0000
Subject: [PATCH 15/54] fix: connect split vertices of the sweep line with the
 helper vertex

---
 src/tesselate/sweep/sweep.rs | 33 +++++++++++----------------------
 1 file changed, 11 insertions(+), 22 deletions(-)

diff --git a/src/tesselate/sweep/sweep.rs b/src/tesselate/sweep/sweep.rs
index 48acda5..b083d31 100644
--- a/src/tesselate/sweep/sweep.rs
+++ b/src/tesselate/sweep/sweep.rs
@@ -126,38 +126,27 @@ impl<'a, 'b, MT: MonotoneTriangulator> SweepContext<'a, 'b, MT> {
         let line = self.sls.remove_left(i, &self.vec2s).unwrap();
         assert!(!line.is_end(), "A split vertex must not be an end vertex");
 
-        let stacks = if let Some(mut fixup) = line.fixup {
+        // connect the split vertex with the helper, i.e., the lowest vertex above it: the part
+        // of the chain that is visible from above ends there
+        let (mut left_chain, mut right_chain) = if let Some(fixup) = line.fixup {
             #[cfg(feature = "sweep_debug_print")]
-            println!("fixup split: {}", fixup);
+            println!("fixup split: {:?}", fixup);
 
-            let t = fixup.last_opposite();
-
-            fixup.right(event.here, self.tri, self.vec2s);
-            fixup.finish(self.tri, self.vec2s);
-
-            let mut x = MT::new(t);
-            x.left(event.here, self.tri, self.vec2s);
-            x
+            (line.chain, fixup)
         } else if line.chain.is_right() {
-            let mut x = MT::new(line.helper);
-            x.left(event.here, self.tri, self.vec2s);
-            x
+            (line.chain, MT::new(line.helper))
         } else {
-            let mut x = MT::new(line.chain.last_opposite());
-            x.left(event.here, self.tri, self.vec2s);
-            x
+            (MT::new(line.helper), line.chain)
         };
+        left_chain.right(event.here, self.tri, self.vec2s);
+        right_chain.left(event.here, self.tri, self.vec2s);
 
         self.sls.insert(
             SweepLineInterval {
                 helper: event.here,
                 left: line.left,
                 right: IntervalBoundaryEdge::new(event.here, event.prev),
-                chain: {
-                    let mut x = line.chain;
-                    x.right(event.here, self.tri, self.vec2s);
-                    x
-                },
+                chain: left_chain,
                 fixup: None,
             },
             self.vec2s,
@@ -168,7 +157,7 @@ impl<'a, 'b, MT: MonotoneTriangulator> SweepContext<'a, 'b, MT> {
                 helper: event.here,
                 left: IntervalBoundaryEdge::new(event.here, event.next),
                 right: line.right,
-                chain: stacks,
+                chain: right_chain,
                 fixup: None,
             },
             self.vec2s,
-- 
2.43.0


From 04aa7f12d40d490625aba7b9c241db419c80fa4d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:15:49 +0000
Subject: [PATCH 16/54] fix: let the tree search of the sweep line status
 reject positions outside of all intervals

---
 src/tesselate/sweep/status.rs | 16 +++++++---------
 1 file changed, 7 insertions(+), 9 deletions(-)

diff --git a/src/tesselate/sweep/status.rs b/src/tesselate/sweep/status.rs
index 131a7c9..ba3e127 100644
--- a/src/tesselate/sweep/status.rs
+++ b/src/tesselate/sweep/status.rs
@@ -236,7 +236,12 @@ impl<MT: MonotoneTriangulator> SweepLineStatus<MT> {
             .expect("The tree should be initialized.")
             .range(sorter.clone()..)
             .next()
-            .map(|sorter| sorter.left);
+            .map(|sorter| sorter.left)
+            .filter(|i| {
+                self.left[*i]
+                    .as_ref()
+                    .is_some_and(|v| v.contains(pos, vec2s))
+            });
 
         debug_assert!(
             x == self.find_linearly(pos, vec2s),
@@ -250,14 +255,7 @@ impl<MT: MonotoneTriangulator> SweepLineStatus<MT> {
             self.tree,
         );
 
-        if let Some(i) = x {
-            if let Some(v) = &self.left[i] {
-                if v.contains(pos, vec2s) {
-                    return x;
-                }
-            }
-        }
-        None
+        x
     }
 
     /// Delayed initialization of the b-tree
-- 
2.43.0


From 8b6df7b92578bfa25b2fb9bda2cc15a2183af126 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:17:12 +0000
Subject: [PATCH 17/54] fix: let ear clipping respect vertices on the boundary
 of an ear and ignore clipped ones

---
 src/tesselate/ear_clipping.rs | 17 ++++++++++++-----
 1 file changed, 12 insertions(+), 5 deletions(-)

diff --git a/src/tesselate/ear_clipping.rs b/src/tesselate/ear_clipping.rs
index 5e9a0c4..5063d3f 100644
--- a/src/tesselate/ear_clipping.rs
+++ b/src/tesselate/ear_clipping.rs
@@ -31,13 +31,20 @@ pub fn ear_clipping_direct<Vec2: Vector2D, V: IndexType>(
     let eps = <Vec2::S as Scalar>::EPS * 2.0.into();
     let mut success_since_fail = 0;
 
-    let triangle_empty = |a: usize, b: usize, c: usize| {
+    // Whether none of the remaining vertices is inside of the triangle or on its boundary
+    let triangle_empty = |a: usize, b: usize, c: usize, clipped: &[bool]| {
         let av = vs[a].0;
         let bv = vs[b].0;
         let cv = vs[c].0;
-        vs.iter()
-            .enumerate()
-            .all(|(i, v)| i == a || i == b || i == c || !v.0.is_inside_triangle(av, bv, cv))
+        vs.iter().enumerate().all(|(i, (v, _))| {
+            i == a
+                || i == b
+                || i == c
+                || clipped[i]
+                || Vec2::barycentric_sign(*v, av, bv).is_negative()
+                || Vec2::barycentric_sign(*v, bv, cv).is_negative()
+                || Vec2::barycentric_sign(*v, cv, av).is_negative()
+        })
     };
 
     let n0 = vs.len();
@@ -67,7 +74,7 @@ pub fn ear_clipping_direct<Vec2: Vector2D, V: IndexType>(
 
         // cut the ear off
         if !vs[i_b].0.convex(vs[i_a].0, vs[i_c].0)
-                || !triangle_empty(i_a, i_b, i_c)
+                || !triangle_empty(i_a, i_b, i_c, &clipped)
                 // if there are nearly collinear points, we can't cut the ear, because triangle_empty could block any progress afterwards
                 || (success_since_fail >= 2 &&vs[i_b].0.collinear(vs[i_a].0, vs[i_c].0, eps))
         {
-- 
2.43.0


From a95d0e58716acdc974603d7d3980012fbc4a332e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:17:12 +0000
Subject: [PATCH 18/54] fix: do not treat zero as strictly positive or negative

---
 src/math/impls/f32.rs   | 4 ++--
 src/math/impls/f64.rs   | 4 ++--
 src/math/scalar.rs      | 6 +++---
 src/mesh/face/face3d.rs | 2 +-
 4 files changed, 8 insertions(+), 8 deletions(-)

diff --git a/src/math/impls/f32.rs b/src/math/impls/f32.rs
index 77f8ea8..913589d 100644
--- a/src/math/impls/f32.rs
+++ b/src/math/impls/f32.rs
@@ -19,12 +19,12 @@ impl Scalar for f32 {
 
     #[inline(always)]
     fn is_positive(self) -> bool {
-        self.is_sign_positive()
+        self > 0.0
     }
 
     #[inline(always)]
     fn is_negative(self) -> bool {
-        self.is_sign_negative()
+        self < 0.0
     }
 
     #[inline(always)]
diff --git a/src/math/impls/f64.rs b/src/math/impls/f64.rs
index 93c6f3a..c1c9693 100644
--- a/src/math/impls/f64.rs
+++ b/src/math/impls/f64.rs
@@ -19,12 +19,12 @@ impl Scalar for f64 {
 
     #[inline(always)]
     fn is_positive(self) -> bool {
-        self.is_sign_positive()
+        self > 0.0
     }
 
     #[inline(always)]
     fn is_negative(self) -> bool {
-        self.is_sign_negative()
+        self < 0.0
     }
 
     #[inline(always)]
diff --git a/src/math/scalar.rs b/src/math/scalar.rs
index d506420..c428bdc 100644
--- a/src/math/scalar.rs
+++ b/src/math/scalar.rs
@@ -77,10 +77,10 @@ pub trait Scalar:
 
     /// Returns the absolute value of the scalar.
     fn abs(self) -> Self {
-        if self.is_positive() {
-            self
-        } else {
+        if self.is_negative() {
             -self
+        } else {
+            self
         }
     }
 
diff --git a/src/mesh/face/face3d.rs b/src/mesh/face/face3d.rs
index 889d071..b2cca7a 100644
--- a/src/mesh/face/face3d.rs
+++ b/src/mesh/face/face3d.rs
@@ -28,7 +28,7 @@ pub trait Face3d<T: MeshType3D<Face = Self>>: FaceBasics<T> {
         // TODO: collinear points cause problems
         self.vertices_crossed(mesh)
             .circular_tuple_windows::<(_, _)>()
-            .map(|w| w.0.dot(&w.1).is_positive())
+            .map(|w| !w.0.dot(&w.1).is_negative())
             .all_equal()
     }
 
-- 
2.43.0


From 795d3e4d03951a7f0be0bde6b0754105ac0f20c3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:27:45 +0000
Subject: [PATCH 19/54] fix: make rotation arcs work for opposite and accurate
 for nearly parallel directions

---
 src/extensions/nalgebra/math/rotate.rs | 39 +++++++++++++++++++++-----
 1 file changed, 32 insertions(+), 7 deletions(-)

diff --git a/src/extensions/nalgebra/math/rotate.rs b/src/extensions/nalgebra/math/rotate.rs
index f3ecdbd..f79b27f 100644
--- a/src/extensions/nalgebra/math/rotate.rs
+++ b/src/extensions/nalgebra/math/rotate.rs
@@ -100,13 +100,10 @@ impl<S: Scalar, const D: usize> NdRotate<S, D> {
         } else if D == 3 {
             Self {
                 rot2: None,
-                rot3: Some(
-                    nalgebra::Rotation3::rotation_between(
-                        &from.fixed_rows::<3>(0).into_owned(),
-                        &to.fixed_rows::<3>(0).into_owned(),
-                    )
-                    .expect("Failed to create rotation"),
-                ),
+                rot3: Some(rotation_arc_3d(
+                    from.fixed_rows::<3>(0).into_owned(),
+                    to.fixed_rows::<3>(0).into_owned(),
+                )),
                 rot: None,
             }
         } else {
@@ -115,6 +112,34 @@ impl<S: Scalar, const D: usize> NdRotate<S, D> {
     }
 }
 
+/// The shortest rotation between two directions.
+/// Doesn't need the angle, which is hard to recover for nearly parallel directions.
+fn rotation_arc_3d<S: ScalarPlus>(
+    from: nalgebra::Vector3<S>,
+    to: nalgebra::Vector3<S>,
+) -> nalgebra::Rotation3<S> {
+    let (Some(a), Some(b)) = (from.try_normalize(S::ZERO), to.try_normalize(S::ZERO)) else {
+        return nalgebra::Rotation3::identity();
+    };
+    let v = a.cross(&b);
+    let cos = a.dot(&b);
+    let k = v.cross_matrix();
+    let factor = if cos >= S::ZERO {
+        S::ONE / (S::ONE + cos)
+    } else if v.norm_squared() > S::EPS {
+        (S::ONE - cos) / v.norm_squared()
+    } else {
+        // (nearly) opposite directions: half a turn around any perpendicular axis
+        let mut axis = nalgebra::Vector3::zeros();
+        axis[a.iamin()] = S::ONE;
+        let n = a.cross(&axis).normalize();
+        return nalgebra::Rotation3::from_matrix_unchecked(
+            n * n.transpose() * S::TWO - nalgebra::Matrix3::identity(),
+        );
+    };
+    nalgebra::Rotation3::from_matrix_unchecked(nalgebra::Matrix3::identity() + k + k * k * factor)
+}
+
 impl<S: Scalar, const D: usize> Rotator<VecN<S, D>> for NdRotate<S, D> {}
 
 #[cfg(test)]
-- 
2.43.0


From 3ba819d747cb308aa819d3f16ae706631c0781a9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:29:40 +0000
Subject: [PATCH 20/54] fix: don't take diagonals that are edges of other faces
 for the boundary of a face

---
 src/halfedge/face/mod.rs | 28 +++++++++++-----------------
 1 file changed, 11 insertions(+), 17 deletions(-)

diff --git a/src/halfedge/face/mod.rs b/src/halfedge/face/mod.rs
index d5efd13..4094154 100644
--- a/src/halfedge/face/mod.rs
+++ b/src/halfedge/face/mod.rs
@@ -102,24 +102,18 @@ impl<T: HalfEdgeImplMeshType> Face for HalfEdgeFaceImpl<T> {
         v1: T::V,
         v2: T::V,
     ) -> Option<bool> {
-        if let Some(e) = mesh.shared_edge(v0, v1) {
-            // it has a common halfedge with another face. That means, it cannot be part of *this* face.
-            if e.face_id() != self.id() {
-                return Some(false);
+        for (v, w) in [(v0, v1), (v1, v2), (v2, v0)] {
+            if let Some(e) = mesh.shared_edge(v, w) {
+                if e.face_id() == self.id() {
+                    return Some(true);
+                }
+                // The triangle is on the other side of an edge of this face.
+                // Edges that don't belong to this face at all don't tell anything,
+                // since a diagonal of this face can be an edge of other faces.
+                if e.twin(mesh).face_id() == self.id() {
+                    return Some(false);
+                }
             }
-            return Some(!e.is_boundary_self());
-        }
-        if let Some(e) = mesh.shared_edge(v1, v2) {
-            if e.face_id() != self.id() {
-                return Some(false);
-            }
-            return Some(!e.is_boundary_self());
-        }
-        if let Some(e) = mesh.shared_edge(v2, v0) {
-            if e.face_id() != self.id() {
-                return Some(false);
-            }
-            return Some(!e.is_boundary_self());
         }
 
         return None;
-- 
2.43.0


From d21d349c049dcd4e4d2c1b008deabde9475aff2a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:30:35 +0000
Subject: [PATCH 21/54] fix: let the Delaunay triangulation accept coordinates
 that are almost zero

---
 src/tesselate/delaunay.rs | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/src/tesselate/delaunay.rs b/src/tesselate/delaunay.rs
index 0a623b4..3d0f3f8 100644
--- a/src/tesselate/delaunay.rs
+++ b/src/tesselate/delaunay.rs
@@ -4,7 +4,7 @@ use crate::{
     mesh::{Face, Face3d, FaceBasics, MeshType3D},
 };
 use itertools::Itertools;
-use spade::{ConstrainedDelaunayTriangulation, Point2, Triangulation as _};
+use spade::{mitigate_underflow, ConstrainedDelaunayTriangulation, Point2, Triangulation as _};
 use std::collections::HashMap;
 
 /// Converts the face into a triangle list using the delaunay triangulation.
@@ -26,7 +26,10 @@ pub fn delaunay_triangulation<T: MeshType3D>(
     for (i2, (vec2, global_index)) in vec2s.iter().enumerate() {
         i2v.push(*global_index);
         let spade_vertex = cdt
-            .insert(Point2::new(vec2.x().to_f64(), vec2.y().to_f64()))
+            .insert(mitigate_underflow(Point2::new(
+                vec2.x().to_f64(),
+                vec2.y().to_f64(),
+            )))
             .unwrap();
         // TODO: Handle meshes with vertices with the same position
         assert!(spade_vertex.index() == i2);
-- 
2.43.0


From 69d80127d9f14f3d58a424279348bfcdfbdedab0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:30:57 +0000
Subject: [PATCH 22/54] fix: accept sweep line intervals whose edges are
 swapped by rounding errors at their common end

---
 src/tesselate/sweep/interval.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/tesselate/sweep/interval.rs b/src/tesselate/sweep/interval.rs
index d5777e9..0007d70 100644
--- a/src/tesselate/sweep/interval.rs
+++ b/src/tesselate/sweep/interval.rs
@@ -92,7 +92,7 @@ impl<MT: MonotoneTriangulator> SweepLineInterval<MT> {
             return false;
         }
         let p2 = self.right.x_at_y::<MT::V, MT::Vec2>(pos.y(), vec2s);
-        assert!(p1 <= p2);
+        // close to a common end of both edges, rounding errors can swap `p1` and `p2`
         return pos.x() <= p2;
     }
 
-- 
2.43.0


From e7435e12946a0bd87fb5d8156beedb33c2d173c0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:47:42 +0000
Subject: [PATCH 23/54] fix: judge the flatness of cubic curves by more than
 their middle

---
 src/mesh/edge/curved.rs | 14 +++++++++++---
 1 file changed, 11 insertions(+), 3 deletions(-)

diff --git a/src/mesh/edge/curved.rs b/src/mesh/edge/curved.rs
index affa3a4..5f5eba4 100644
--- a/src/mesh/edge/curved.rs
+++ b/src/mesh/edge/curved.rs
@@ -98,9 +98,17 @@ pub trait CurvedEdge<const D: usize, T: EuclideanMeshType<D, Edge = Self>>: Edge
             let p0 = curve.point_at(edge, mesh, t0);
             let p1 = curve.point_at(edge, mesh, t1);
             let tm = (t0 + t1) / T::S::TWO;
-            let pm = curve.point_at(edge, mesh, tm);
-            let p_line = p0.lerped(&p1, T::S::HALF);
-            let deviation = pm.distance(&p_line);
+
+            // The offset of a (at most cubic) curve from its chord is t (1-t) (a (1-t) + b t).
+            // Testing only the middle would miss curves that are symmetric around it.
+            let third = (t1 - t0) / T::S::THREE;
+            let d1 = curve.point_at(edge, mesh, t0 + third)
+                - p0.lerped(&p1, T::S::ONE / T::S::THREE);
+            let d2 = curve.point_at(edge, mesh, t1 - third)
+                - p0.lerped(&p1, T::S::TWO / T::S::THREE);
+            let a = d1 * T::S::TWO - d2;
+            let b = d2 * T::S::TWO - d1;
+            let deviation = Scalar::max(&a.length(), b.length()) * T::S::from(1.125);
 
             if deviation <= error {
                 // The segment is acceptable; push p1
-- 
2.43.0


From 25894034451eb8b7aaa51cefe92d7f57bd6dec3a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:50:03 +0000
Subject: [PATCH 24/54] fix: leave no curved edges when flattening, even if
 they are almost straight

---
 src/mesh/mesh/basics.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/mesh/mesh/basics.rs b/src/mesh/mesh/basics.rs
index 346eb3c..f75662c 100644
--- a/src/mesh/mesh/basics.rs
+++ b/src/mesh/mesh/basics.rs
@@ -176,6 +176,7 @@ pub trait MeshBasics<T: MeshType<Mesh = Self>>: Default + std::fmt::Debug + Clon
             let edge = self.edge(*e);
             if edge.curve_type() != CurvedEdgeType::Linear {
                 let vs = edge.flatten_casteljau(tol, self);
+                self.edge_mut(*e).set_curve_type(CurvedEdgeType::Linear);
                 if vs.len() == 0 {
                     continue;
                 }
@@ -184,7 +185,6 @@ pub trait MeshBasics<T: MeshType<Mesh = Self>>: Default + std::fmt::Debug + Clon
                     vs.iter()
                         .map(|v| (T::EP::default(), T::EP::default(), T::VP::from_pos(*v))),
                 );
-                self.edge_mut(*e).set_curve_type(CurvedEdgeType::Linear);
             }
         }
 
-- 
2.43.0


From 430c5362cf419bfadfa1b72a3c2a838a57d3a010 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:05:02 +0000
Subject: [PATCH 25/54] fix: let PathBuilder::close draw the closing line of an
 open path

---
 src/mesh/mesh/path_builder.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/mesh/mesh/path_builder.rs b/src/mesh/mesh/path_builder.rs
index 4b1e395..e9fa4f6 100644
--- a/src/mesh/mesh/path_builder.rs
+++ b/src/mesh/mesh/path_builder.rs
@@ -221,10 +221,9 @@ where
             return self.mesh().close_hole(start_inner, fp, false);
         }
 
-        self.closed = true;
-
         let Some((current_inner, current_outer)) = self.current_edges() else {
             // The current vertex doesn't have any edges yet.
+            self.closed = true;
             assert!(self.start_edges().is_none());
             assert!(self.start_vertex() == self.current_vertex());
             return IndexType::max();
@@ -248,6 +247,7 @@ where
             //self.mesh().close
             self.line_to(self.start_vertex());
         }
+        self.closed = true;
 
         // TODO: is this necessary or not? Generally, is the correction above correct? Or is the winding in the opposite direction?
         /*debug_assert!(self
-- 
2.43.0


From 1263c29578e9c5ef60f7add39a8233fac4e2ec79 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:13:44 +0000
Subject: [PATCH 26/54] fix: import every sub-path of an SVG path instead of
 panicking at the second

---
 src/extensions/svg/svg.rs | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/src/extensions/svg/svg.rs b/src/extensions/svg/svg.rs
index 0f00d34..9214848 100644
--- a/src/extensions/svg/svg.rs
+++ b/src/extensions/svg/svg.rs
@@ -55,9 +55,14 @@ where
     for s in path.data().segments() {
         match s {
             usvg::tiny_skia_path::PathSegment::MoveTo(p) => {
-                assert!(is_first);
+                if !is_first {
+                    // Finish the previous sub-path and begin a new one.
+                    if !pb.has_face() {
+                        pb.close(Default::default());
+                    }
+                    pb = PathBuilder::<T, T::Trans>::new(mesh);
+                }
                 pb.move_to_new(v(p));
-                //pb = PathBuilder::<T>::start(mesh, v(p));
             }
             usvg::tiny_skia_path::PathSegment::LineTo(p) => {
                 let end = pb.add_vertex_autoclose(v(p));
-- 
2.43.0


From 4821edbc9210f28e8c0ff41e6674d57bcfd44407 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:14:19 +0000
Subject: [PATCH 27/54] fix: apply the transformations of an SVG document to
 the imported paths

---
 src/extensions/svg/svg.rs | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/src/extensions/svg/svg.rs b/src/extensions/svg/svg.rs
index 9214848..c413bab 100644
--- a/src/extensions/svg/svg.rs
+++ b/src/extensions/svg/svg.rs
@@ -45,9 +45,13 @@ where
     // let fill = path.fill();
     // let stroke = path.stroke();
     // let po = path.paint_order();
-    // let transform = path.abs_transform();
 
-    let v = |p: usvg::tiny_skia_path::Point| T::Vec::from_xy(T::S::from(p.x), T::S::from(p.y));
+    let transform = path.abs_transform();
+
+    let v = |mut p: usvg::tiny_skia_path::Point| {
+        transform.map_point(&mut p);
+        T::Vec::from_xy(T::S::from(p.x), T::S::from(p.y))
+    };
 
     let mut pb = PathBuilder::<T, T::Trans>::new(mesh);
 
-- 
2.43.0


From 79cdc84f0dc4af21509a2c376b360fff6e823c40 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:15:39 +0000
Subject: [PATCH 28/54] fix: scale the glyph outlines like their advances

---
 src/mesh/mesh/fonts.rs | 9 ++-------
 1 file changed, 2 insertions(+), 7 deletions(-)

diff --git a/src/mesh/mesh/fonts.rs b/src/mesh/mesh/fonts.rs
index 977ac25..7f5f13d 100644
--- a/src/mesh/mesh/fonts.rs
+++ b/src/mesh/mesh/fonts.rs
@@ -89,13 +89,8 @@ impl<'a> Font<'a> {
             return;
         };
 
-        let scale = T::S::from(
-            self.font
-                .pt_to_px_scale(self.scale)
-                .map(|x| x.x)
-                .unwrap_or(self.scale)
-                / self.font.height_unscaled(),
-        );
+        // The same scale as the advances and the kerning.
+        let scale = T::S::from(self.font_scale() / self.font.height_unscaled());
         let mut first = None;
         let mut cur = None;
         let mut cur_v = IndexType::max();
-- 
2.43.0


From b1401741489ad3f8e5c59833d1b1be90d6753447 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:16:18 +0000
Subject: [PATCH 29/54] fix: don't reverse the last cubic curve of a glyph
 outline

---
 src/mesh/mesh/fonts.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/mesh/mesh/fonts.rs b/src/mesh/mesh/fonts.rs
index 7f5f13d..b91b04d 100644
--- a/src/mesh/mesh/fonts.rs
+++ b/src/mesh/mesh/fonts.rs
@@ -131,7 +131,8 @@ impl<'a> Font<'a> {
             if let Some(_p) = cur {
                 // TODO: don't use eq but similarity
                 if first.unwrap() == p1 {
-                    let (_, _, e) = mesh.close_face_vertices(
+                    // the inside edge goes from the last vertex to the first one
+                    let (_, e, _) = mesh.close_face_vertices(
                         prev_v,
                         Default::default(),
                         cur_v,
-- 
2.43.0


From 077291d33a5cc963205b8b99ec0ad1fd81b2a2b2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:21:26 +0000
Subject: [PATCH 30/54] fix: scale the rows of an affine matrix so that
 with_scale applies after the existing map

---
 src/extensions/nalgebra/math/transform_n.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/extensions/nalgebra/math/transform_n.rs b/src/extensions/nalgebra/math/transform_n.rs
index a4c718c..4db28ee 100644
--- a/src/extensions/nalgebra/math/transform_n.rs
+++ b/src/extensions/nalgebra/math/transform_n.rs
@@ -91,7 +91,7 @@ impl<S: ScalarPlus, const D: usize> TransformTrait<S, D> for NdAffine<S, D> {
 
     fn with_scale(&self, v: Self::Vec) -> Self {
         Self {
-            matrix: self.matrix * SMatrix::<S, D, D>::from_diagonal(&v),
+            matrix: SMatrix::<S, D, D>::from_diagonal(&v) * self.matrix,
             translation: self.translation.component_mul(&v),
         }
     }
-- 
2.43.0


From 3683f3384a28d81364ad1b8550fc8a11a3591b23 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:21:46 +0000
Subject: [PATCH 31/54] fix: let the bevy transformations chain the left one
 first

---
 src/extensions/bevy/math/mat5.rs | 2 +-
 src/extensions/bevy/math/vec2.rs | 2 +-
 src/extensions/bevy/math/vec3.rs | 2 +-
 3 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/extensions/bevy/math/mat5.rs b/src/extensions/bevy/math/mat5.rs
index 8ef8e97..56d04a3 100644
--- a/src/extensions/bevy/math/mat5.rs
+++ b/src/extensions/bevy/math/mat5.rs
@@ -177,6 +177,6 @@ impl TransformTrait<f32, 4> for Mat5<f32> {
 
     #[inline(always)]
     fn chain(&self, other: &Self) -> Self {
-        *self * *other
+        *other * *self
     }
 }
diff --git a/src/extensions/bevy/math/vec2.rs b/src/extensions/bevy/math/vec2.rs
index be4839e..1322558 100644
--- a/src/extensions/bevy/math/vec2.rs
+++ b/src/extensions/bevy/math/vec2.rs
@@ -160,7 +160,7 @@ impl TransformTrait<f32, 2> for Affine2 {
 
     #[inline(always)]
     fn chain(&self, other: &Self) -> Self {
-        *self * *other
+        *other * *self
     }
 }
 
diff --git a/src/extensions/bevy/math/vec3.rs b/src/extensions/bevy/math/vec3.rs
index 9886598..0ec72d8 100644
--- a/src/extensions/bevy/math/vec3.rs
+++ b/src/extensions/bevy/math/vec3.rs
@@ -180,7 +180,7 @@ impl TransformTrait<f32, 3> for TransformBevy {
 
     #[inline(always)]
     fn chain(&self, other: &Self) -> Self {
-        *self * *other
+        *other * *self
     }
 }
 
-- 
2.43.0


From dda4e71636ac21c385f2f273130895e0fc3d7323 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:21:46 +0000
Subject: [PATCH 32/54] fix: let with_scale and with_translation of the bevy
 transformations compose instead of replacing

---
 src/extensions/bevy/math/mat5.rs | 10 ++++++----
 src/extensions/bevy/math/vec3.rs |  4 ++--
 2 files changed, 8 insertions(+), 6 deletions(-)

diff --git a/src/extensions/bevy/math/mat5.rs b/src/extensions/bevy/math/mat5.rs
index 56d04a3..f6e9bcb 100644
--- a/src/extensions/bevy/math/mat5.rs
+++ b/src/extensions/bevy/math/mat5.rs
@@ -142,10 +142,12 @@ impl TransformTrait<f32, 4> for Mat5<f32> {
 
     fn with_scale(&self, v: Self::Vec) -> Self {
         let mut m = *self;
-        m.data[0] *= v.x;
-        m.data[6] *= v.y;
-        m.data[12] *= v.z;
-        m.data[18] *= v.w;
+        for j in 0..5 {
+            m.data[j] *= v.x;
+            m.data[5 + j] *= v.y;
+            m.data[10 + j] *= v.z;
+            m.data[15 + j] *= v.w;
+        }
         m
     }
 
diff --git a/src/extensions/bevy/math/vec3.rs b/src/extensions/bevy/math/vec3.rs
index 0ec72d8..bd80192 100644
--- a/src/extensions/bevy/math/vec3.rs
+++ b/src/extensions/bevy/math/vec3.rs
@@ -153,12 +153,12 @@ impl TransformTrait<f32, 3> for TransformBevy {
 
     #[inline(always)]
     fn with_scale(&self, scale: Self::Vec) -> Self {
-        TransformBevy::with_scale(*self, scale)
+        TransformBevy::from_scale(scale) * *self
     }
 
     #[inline(always)]
     fn with_translation(&self, v: Self::Vec) -> Self {
-        TransformBevy::with_translation(*self, v)
+        TransformBevy::from_translation(v) * *self
     }
 
     #[inline(always)]
-- 
2.43.0


From 5db324be91bad8dfb03d2119f1f9dedacb00052f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:21:46 +0000
Subject: [PATCH 33/54] fix: don't translate directions with the bevy transform

---
 src/extensions/bevy/math/vec3.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/extensions/bevy/math/vec3.rs b/src/extensions/bevy/math/vec3.rs
index bd80192..2015599 100644
--- a/src/extensions/bevy/math/vec3.rs
+++ b/src/extensions/bevy/math/vec3.rs
@@ -175,7 +175,8 @@ impl TransformTrait<f32, 3> for TransformBevy {
 
     #[inline(always)]
     fn apply_vec(&self, v: Vec3) -> Vec3 {
-        self.apply(v)
+        // don't apply translation
+        self.rotation * (self.scale * v)
     }
 
     #[inline(always)]
-- 
2.43.0


From d674e3425259448b8e60dd8abb6081cdd0ef3fe2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:21:46 +0000
Subject: [PATCH 34/54] fix: implement the rotation of the 2d bevy vertex
 payload

---
 src/extensions/bevy/vertex_payload_2d.rs | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/extensions/bevy/vertex_payload_2d.rs b/src/extensions/bevy/vertex_payload_2d.rs
index 50f57fd..7de9fc3 100644
--- a/src/extensions/bevy/vertex_payload_2d.rs
+++ b/src/extensions/bevy/vertex_payload_2d.rs
@@ -46,8 +46,9 @@ impl Transformable<2> for BevyVertexPayload2d {
     }
 
     #[inline(always)]
-    fn rotate(&mut self, _r: &Self::Rot) -> &mut Self {
-        todo!("rotate")
+    fn rotate(&mut self, r: &Self::Rot) -> &mut Self {
+        self.position = Self::Trans::from_rotation(*r).apply(self.position);
+        self
     }
 
     #[inline(always)]
-- 
2.43.0


From 7d189dc65df643947f2d1e1d9ce13c127111987e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:40:14 +0000
Subject: [PATCH 35/54] fix: let is_isomorphic_pos find the correspondence by
 position

---
 src/mesh/mesh/basics.rs | 7 +------
 1 file changed, 1 insertion(+), 6 deletions(-)

diff --git a/src/mesh/mesh/basics.rs b/src/mesh/mesh/basics.rs
index f75662c..476d1b6 100644
--- a/src/mesh/mesh/basics.rs
+++ b/src/mesh/mesh/basics.rs
@@ -453,12 +453,7 @@ pub trait MeshBasics<T: MeshType<Mesh = Self>>: Default + std::fmt::Debug + Clon
     where
         T::VP: HasPosition<D, Vec, S = S>,
     {
-        self.is_trivially_isomorphic_ex(
-            other,
-            |a, b| a.pos().is_about(&b.pos(), eps),
-            |_, _| true,
-            |_, _| true,
-        )
+        self.is_isomorphic_by_pos::<S, D, Vec, T>(other, eps)
     }
 
     /// Same as `is_trivially_isomorphic_pos`, but also checks control points of curved edges.
-- 
2.43.0


From 094bda4aa5d34d9ba62fea3587afa5536c572788 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:40:14 +0000
Subject: [PATCH 36/54] fix: don't panic in is_trivially_isomorphic_ex when an
 id is missing in the other mesh

---
 src/mesh/mesh/basics.rs | 12 ++++++++++++
 1 file changed, 12 insertions(+)

diff --git a/src/mesh/mesh/basics.rs b/src/mesh/mesh/basics.rs
index 476d1b6..28a3544 100644
--- a/src/mesh/mesh/basics.rs
+++ b/src/mesh/mesh/basics.rs
@@ -354,7 +354,13 @@ pub trait MeshBasics<T: MeshType<Mesh = Self>>: Default + std::fmt::Debug + Clon
             return MeshEquivalenceDifference::DifferentNumberOfFaces;
         }
 
+        let other_edges: HashSet<T::E> = other.edge_ids().collect();
+        let other_faces: HashSet<T::F> = other.face_ids().collect();
+
         for v in self.vertices() {
+            if !other.has_vertex(v.id()) {
+                return MeshEquivalenceDifference::NoCorrespondingVertex;
+            }
             let other_v = other.vertex(v.id());
             if v.id() != other_v.id() || !compare_vertex(v, other_v) {
                 return MeshEquivalenceDifference::DifferentVertices(v.id(), other_v.id());
@@ -362,6 +368,9 @@ pub trait MeshBasics<T: MeshType<Mesh = Self>>: Default + std::fmt::Debug + Clon
         }
 
         for e in self.edges() {
+            if !other_edges.contains(&e.id()) {
+                return MeshEquivalenceDifference::NoCorrespondingEdge(e.id());
+            }
             let other_e = other.edge(e.id());
             if e.id() != other_e.id()
                 || e.origin(self).id() != other_e.origin(self).id()
@@ -373,6 +382,9 @@ pub trait MeshBasics<T: MeshType<Mesh = Self>>: Default + std::fmt::Debug + Clon
         }
 
         for f in self.faces() {
+            if !other_faces.contains(&f.id()) {
+                return MeshEquivalenceDifference::NoCorrespondingFace(f.id());
+            }
             let other_f = other.face(f.id());
             if f.id() != other_f.id()
                 || f.num_vertices(self) != other_f.num_vertices(self)
-- 
2.43.0


From c026820efea006fa17e93a0ea442bef85545d579 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:40:14 +0000
Subject: [PATCH 37/54] fix: look at the other mesh's own connectivity in
 is_trivially_isomorphic_ex

---
 src/mesh/mesh/basics.rs | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/mesh/mesh/basics.rs b/src/mesh/mesh/basics.rs
index 28a3544..c7eb2c4 100644
--- a/src/mesh/mesh/basics.rs
+++ b/src/mesh/mesh/basics.rs
@@ -373,8 +373,8 @@ pub trait MeshBasics<T: MeshType<Mesh = Self>>: Default + std::fmt::Debug + Clon
             }
             let other_e = other.edge(e.id());
             if e.id() != other_e.id()
-                || e.origin(self).id() != other_e.origin(self).id()
-                || e.target(self).id() != other_e.target(self).id()
+                || e.origin(self).id() != other_e.origin(other).id()
+                || e.target(self).id() != other_e.target(other).id()
                 || !compare_edge(e, other_e)
             {
                 return MeshEquivalenceDifference::DifferentEdges(e.id(), other_e.id());
@@ -387,10 +387,10 @@ pub trait MeshBasics<T: MeshType<Mesh = Self>>: Default + std::fmt::Debug + Clon
             }
             let other_f = other.face(f.id());
             if f.id() != other_f.id()
-                || f.num_vertices(self) != other_f.num_vertices(self)
+                || f.num_vertices(self) != other_f.num_vertices(other)
                 || !equal_up_to_rotation(
                     &f.edge_ids(self).collect_vec(),
-                    &other_f.edge_ids(self).collect_vec(),
+                    &other_f.edge_ids(other).collect_vec(),
                 )
                 || !compare_face(f, other_f)
             {
-- 
2.43.0


From 2ffdf0abcb1aef012c616b459e0cdedde2e7ee86 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:40:27 +0000
Subject: [PATCH 38/54] fix: compare the order of the edges around vertices in
 is_trivially_isomorphic_ex, as documented

---
 src/mesh/mesh/basics.rs | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/src/mesh/mesh/basics.rs b/src/mesh/mesh/basics.rs
index c7eb2c4..82dc63e 100644
--- a/src/mesh/mesh/basics.rs
+++ b/src/mesh/mesh/basics.rs
@@ -365,6 +365,13 @@ pub trait MeshBasics<T: MeshType<Mesh = Self>>: Default + std::fmt::Debug + Clon
             if v.id() != other_v.id() || !compare_vertex(v, other_v) {
                 return MeshEquivalenceDifference::DifferentVertices(v.id(), other_v.id());
             }
+
+            // The order of the edges around the vertex matters, but not where the wheel starts
+            let wheel = v.edges_out(self).map(|e| e.id()).collect_vec();
+            let other_wheel = other_v.edges_out(other).map(|e| e.id()).collect_vec();
+            if wheel != other_wheel && !equal_up_to_rotation(&wheel, &other_wheel) {
+                return MeshEquivalenceDifference::DifferentVertices(v.id(), other_v.id());
+            }
         }
 
         for e in self.edges() {
-- 
2.43.0


From 3fa5a8d726815ea10a77dc9c60fad1b675affafd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:40:49 +0000
Subject: [PATCH 39/54] fix: use weighted degrees in laplacian_euclidean

---
 src/mesh/mesh/netsci.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/mesh/mesh/netsci.rs b/src/mesh/mesh/netsci.rs
index 2921fd4..2bf4bbb 100644
--- a/src/mesh/mesh/netsci.rs
+++ b/src/mesh/mesh/netsci.rs
@@ -85,7 +85,9 @@ pub trait NetworkScience<T: MeshType<Mesh = Self>>: MeshBasics<T> {
     where
         T: EuclideanMeshType<D>,
     {
-        self.degree_matrix() - self.adjacency_matrix_euclidean::<D>()
+        let adj = self.adjacency_matrix_euclidean::<D>();
+        // the weighted degree is the sum of all weights in the row
+        nalgebra::DMatrix::from_diagonal(&adj.column_sum()) - adj
     }
 }
 
-- 
2.43.0


From e0ab0162188d929dce126d8eb18c7328e9b6fefd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:31:34 +0000
Subject: [PATCH 40/54] fix: interpolate nearly parallel directions in slerp
 instead of returning the first

---
 src/math/vector3d.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/math/vector3d.rs b/src/math/vector3d.rs
index 022cc28..dbefac4 100644
--- a/src/math/vector3d.rs
+++ b/src/math/vector3d.rs
@@ -137,7 +137,7 @@ pub trait Vector3D: Vector<Self::S, 3> {
 
         // If the angle is very small, return linear interpolation to avoid numerical issues
         if theta.abs() < Self::S::EPS.sqrt() {
-            return *self;
+            return *self + (*other - *self) * t;
         }
 
         let sin_theta = theta.sin();
-- 
2.43.0


From 5321ab5c99c3f50dff46f45e2403894842bd8a9f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:31:47 +0000
Subject: [PATCH 41/54] fix: keep the curved flag of the faces when converting
 a mesh

---
 src/halfedge/mesh/builder/halfedge.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/halfedge/mesh/builder/halfedge.rs b/src/halfedge/mesh/builder/halfedge.rs
index de52dcb..d35800a 100644
--- a/src/halfedge/mesh/builder/halfedge.rs
+++ b/src/halfedge/mesh/builder/halfedge.rs
@@ -370,7 +370,7 @@ impl<T: HalfEdgeImplMeshType> HalfEdgeMeshImpl<T> {
                 face_map[&face.id()],
                 HalfEdgeFaceImpl::new(
                     edge_map[&FaceBasics::edge_id(face)],
-                    false,
+                    FaceBasics::may_be_curved(face),
                     ff(face.payload()),
                 ),
             );
-- 
2.43.0


From 17901be7fe839ca9044039ef4e87fffc4536b15c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:31:47 +0000
Subject: [PATCH 42/54] fix: convert meshes with isolated vertices instead of
 panicking

---
 src/halfedge/mesh/builder/halfedge.rs | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/halfedge/mesh/builder/halfedge.rs b/src/halfedge/mesh/builder/halfedge.rs
index d35800a..d5cf86a 100644
--- a/src/halfedge/mesh/builder/halfedge.rs
+++ b/src/halfedge/mesh/builder/halfedge.rs
@@ -350,6 +350,7 @@ impl<T: HalfEdgeImplMeshType> HalfEdgeMeshImpl<T> {
             face_map.insert(face.id(), f);
         }
         let mut edge_map = std::collections::HashMap::new();
+        edge_map.insert(IndexType::max(), IndexType::max());
         for edge in MeshBasics::edges(mesh) {
             let e = res.halfedges.allocate();
             edge_map.insert(edge.id(), e);
-- 
2.43.0


From 17d77be0153cdf7a2273a5b6523142328006d4ef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:31:47 +0000
Subject: [PATCH 43/54] fix: keep normals and texture coordinates in to_nd

---
 src/extensions/nalgebra/mesh2d.rs | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/src/extensions/nalgebra/mesh2d.rs b/src/extensions/nalgebra/mesh2d.rs
index d4b75d2..cac127f 100644
--- a/src/extensions/nalgebra/mesh2d.rs
+++ b/src/extensions/nalgebra/mesh2d.rs
@@ -2,7 +2,7 @@ use crate::{
     halfedge::{
         HalfEdgeFaceImpl, HalfEdgeImpl, HalfEdgeImplMeshType, HalfEdgeMeshImpl, HalfEdgeVertexImpl,
     },
-    math::{HasPosition, Vector},
+    math::{HasNormal, HasPosition, HasUV, Vector},
     mesh::{
         CurvedEdge, CurvedEdgePayload, CurvedEdgeType, EdgeBasics, EmptyEdgePayload,
         EmptyFacePayload, EmptyMeshPayload, EuclideanMeshType, MeshBasics, MeshType,
@@ -67,7 +67,13 @@ impl HalfEdgeMeshImpl<MeshType2d64PNUCurved> {
     pub fn to_nd<const D: usize>(&self, tol: f64) -> MeshNd64<D> {
         MeshNd64::<D>::import_mesh::<_, _, _, _, MeshType2d64PNUCurved>(
             self.clone().flatten_curved_edges(tol),
-            |vp| VertexPayloadPNU::<f64, D>::from_pos(Vector::from_xy(vp.pos().x, vp.pos().y)),
+            |vp| {
+                let mut res =
+                    VertexPayloadPNU::<f64, D>::from_pos(Vector::from_xy(vp.pos().x, vp.pos().y));
+                res.set_normal(Vector::from_xy(vp.normal().x, vp.normal().y));
+                res.set_uv(*vp.uv());
+                res
+            },
             |_ep| {
                 // TODO: flatten_curved_edges seems to miss some edges?
                 //assert!(ep.is_empty()); // no curves or anything
-- 
2.43.0


From 33e11281ba10240a2b90241d4d648eeab252a08b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:31:47 +0000
Subject: [PATCH 44/54] fix: measure and verify all triangles of a
 triangulation that doesn't start at index zero

---
 src/mesh/triangulation.rs | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/mesh/triangulation.rs b/src/mesh/triangulation.rs
index 2e60803..c122812 100644
--- a/src/mesh/triangulation.rs
+++ b/src/mesh/triangulation.rs
@@ -179,7 +179,7 @@ impl<'a, V: IndexType> Triangulation<'a, V> {
 
     /// Check for non-degenerate triangles (no zero-area triangles)
     pub fn verify_non_degenerate_triangle<Vec2: Vector2D>(&self, vec_hm: &HashMap<V, Vec2>) {
-        for i in self.start..self.len() {
+        for i in 0..self.len() {
             let area = self.get_triangle_area(i, vec_hm);
             /*assert!(
                 area.abs() > Vec2::S::ZERO,
@@ -228,8 +228,8 @@ impl<'a, V: IndexType> Triangulation<'a, V> {
             );
         }*/
 
-        for i in (self.start..num_vertices).step_by(3) {
-            for j in (self.start..num_vertices).step_by(3) {
+        for i in (0..num_vertices).step_by(3) {
+            for j in (0..num_vertices).step_by(3) {
                 if i == j {
                     continue;
                 }
@@ -292,7 +292,7 @@ impl<'a, V: IndexType> Triangulation<'a, V> {
     /// Calculate the total edge weight of the triangulation
     pub fn total_edge_weight<Vec2: Vector2D>(&self, vec_hm: &HashMap<V, Vec2>) -> Vec2::S {
         let mut total = Vec2::S::ZERO;
-        for i in self.start..self.len() {
+        for i in 0..self.len() {
             let (i1, i2, i3) = self.get_triangle(i);
             let v0 = vec_hm[&i1];
             let v1 = vec_hm[&i2];
-- 
2.43.0


From 3053b402d2cef91cc1f387506007bad30a609c77 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:31:47 +0000
Subject: [PATCH 45/54] fix: let verify_area reject triangulations with a wrong
 area

---
 src/mesh/triangulation.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/mesh/triangulation.rs b/src/mesh/triangulation.rs
index c122812..79b45d9 100644
--- a/src/mesh/triangulation.rs
+++ b/src/mesh/triangulation.rs
@@ -314,7 +314,7 @@ impl<'a, V: IndexType> Triangulation<'a, V> {
         // Check if the area of the polygon is the same as the sum of the areas of the triangles
         assert!(
             (Vec2::S::ONE - area / reference).abs()
-                <= (Vec2::S::ONE + Vec2::S::from_usize(5) * Vec2::S::EPS),
+                <= Vec2::S::EPS.sqrt(),
             "Area of the polygon is not equal to the sum of the areas of the triangles ({} != {})",
             area,
             reference
-- 
2.43.0


From ddf94e1de00af8084e44466e64201e9e97693134 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:31:47 +0000
Subject: [PATCH 46/54] fix: let get_triangle_area return the area instead of
 twice the area

---
 src/mesh/triangulation.rs | 14 +++++++-------
 1 file changed, 7 insertions(+), 7 deletions(-)

diff --git a/src/mesh/triangulation.rs b/src/mesh/triangulation.rs
index 79b45d9..7bdf863 100644
--- a/src/mesh/triangulation.rs
+++ b/src/mesh/triangulation.rs
@@ -81,7 +81,7 @@ impl<'a, V: IndexType> Triangulation<'a, V> {
         )
     }
 
-    /// Get the area of a triangle in the triangulation
+    /// Get the signed area of a triangle in the triangulation
     pub fn get_triangle_area<Vec2: Vector2D>(
         &self,
         i: usize,
@@ -93,7 +93,8 @@ impl<'a, V: IndexType> Triangulation<'a, V> {
         let v2 = vec_hm[&i3];
 
         // Use the determinant to calculate the area of the triangle
-        (v1.x() - v0.x()) * (v2.y() - v0.y()) - (v1.y() - v0.y()) * (v2.x() - v0.x())
+        Vec2::S::HALF
+            * ((v1.x() - v0.x()) * (v2.y() - v0.y()) - (v1.y() - v0.y()) * (v2.x() - v0.x()))
     }
 
     /// Insert a triangle into the triangulation using local indices
@@ -282,11 +283,10 @@ impl<'a, V: IndexType> Triangulation<'a, V> {
 
     /// Sum the area of all triangles added to the index buffer since the triangulation was created
     pub fn get_area<Vec2: Vector2D>(&self, vec_hm: &HashMap<V, Vec2>) -> Vec2::S {
-        Vec2::S::HALF
-            * (0..self.len())
-                .into_iter()
-                .map(|i| self.get_triangle_area(i, vec_hm).abs())
-                .stable_sum()
+        (0..self.len())
+            .into_iter()
+            .map(|i| self.get_triangle_area(i, vec_hm).abs())
+            .stable_sum()
     }
 
     /// Calculate the total edge weight of the triangulation
-- 
2.43.0


From 4f1f59c6ebac6bee8c793628d69d31b676b739dd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:31:47 +0000
Subject: [PATCH 47/54] fix: recognise stars, collinear corners and multiple
 windings in is_convex

---
 src/mesh/face/face3d.rs | 39 ++++++++++++++++++++++++++++++++++-----
 1 file changed, 34 insertions(+), 5 deletions(-)

diff --git a/src/mesh/face/face3d.rs b/src/mesh/face/face3d.rs
index b2cca7a..589bb47 100644
--- a/src/mesh/face/face3d.rs
+++ b/src/mesh/face/face3d.rs
@@ -24,12 +24,41 @@ pub trait Face3d<T: MeshType3D<Face = Self>>: FaceBasics<T> {
 
     /// Whether the face is convex. Ignores order.
     fn is_convex(&self, mesh: &T::Mesh) -> bool {
-        // TODO: is this correct?
-        // TODO: collinear points cause problems
+        // all corners must turn to the side of the most pronounced one
+        let n = self.most_pronounced_corner(mesh);
+        let length = n.length();
+        if length <= T::S::ZERO {
+            return true; // all vertices are collinear
+        }
+
+        let ps: Vec<_> = self.vertices(mesh).map(|v| v.pos()).collect();
+        let edge = |i: usize| ps[(i + 1) % ps.len()] - ps[i % ps.len()];
+        let mut angle = T::S::ZERO;
+        for i in 0..ps.len() {
+            let (a, b) = (edge(i), edge(i + 1));
+            // collinear points might seem to turn to the wrong side due to rounding errors
+            let eps = T::S::EPS.sqrt() * a.length() * b.length() * length;
+            if a.cross(&b).dot(&n) < -eps {
+                return false;
+            }
+            angle += a.angle_between(b);
+        }
+
+        // a polygon that winds more than once turns by 4 pi or more
+        !(angle > T::S::THREE * T::S::PI)
+    }
+
+    /// The longest of the cross products of the vertices of the face.
+    /// Its direction is normal to the face even if the face intersects itself.
+    fn most_pronounced_corner(&self, mesh: &T::Mesh) -> T::Vec {
         self.vertices_crossed(mesh)
-            .circular_tuple_windows::<(_, _)>()
-            .map(|w| !w.0.dot(&w.1).is_negative())
-            .all_equal()
+            .fold(T::Vec::zero(), |n: T::Vec, c| {
+                if c.length_squared() > n.length_squared() {
+                    c
+                } else {
+                    n
+                }
+            })
     }
 
     /// Whether the face is planar, i.e., whether all vertices have a distance of
-- 
2.43.0


From ebcf04bf9b8516a51ce53e300c00de8eee7c48a0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:38:55 +0000
Subject: [PATCH 48/54] fix: let is_planar accept faces that are collinear up
 to rounding errors

---
 src/mesh/face/face3d.rs | 15 +++++++++++++--
 1 file changed, 13 insertions(+), 2 deletions(-)

diff --git a/src/mesh/face/face3d.rs b/src/mesh/face/face3d.rs
index 589bb47..6fca1e7 100644
--- a/src/mesh/face/face3d.rs
+++ b/src/mesh/face/face3d.rs
@@ -68,17 +68,28 @@ pub trait Face3d<T: MeshType3D<Face = Self>>: FaceBasics<T> {
 
         // the largest triangle of the fan, since some of them might be degenerated
         let mut n = T::Vec::zero();
-        for i in 2..ps.len() {
-            let c = (ps[i - 1] - ps[0]).cross(&(ps[i] - ps[0]));
+        let mut d = T::Vec::zero();
+        for i in 1..ps.len() {
+            let (a, b) = (ps[i - 1] - ps[0], ps[i] - ps[0]);
+            let c = a.cross(&b);
             if c.length_squared() > n.length_squared() {
                 n = c;
             }
+            if b.length_squared() > d.length_squared() {
+                d = b;
+            }
         }
         let length = n.length();
         if length <= T::S::ZERO {
             return true; // all vertices are collinear
         }
 
+        // if all vertices are nearly collinear, the normal consists of rounding errors
+        let width = d.length() * eps;
+        if ps.iter().all(|p| (*p - ps[0]).cross(&d).length() < width) {
+            return true;
+        }
+
         ps.iter()
             .all(|p| ((*p - ps[0]).dot(&n) / length).abs() < eps)
     }
-- 
2.43.0


From d91dc4136640747a0f913da27344ad2e182e10e1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:38:55 +0000
Subject: [PATCH 49/54] fix: find the self intersections of faces with a
 vanishing newell normal

---
 src/mesh/face/face3d.rs | 13 +++++++++++--
 1 file changed, 11 insertions(+), 2 deletions(-)

diff --git a/src/mesh/face/face3d.rs b/src/mesh/face/face3d.rs
index 6fca1e7..9f7da8c 100644
--- a/src/mesh/face/face3d.rs
+++ b/src/mesh/face/face3d.rs
@@ -107,10 +107,19 @@ pub trait Face3d<T: MeshType3D<Face = Self>>: FaceBasics<T> {
     /// This is a quite slow O(n^2) method. Use with caution.
     fn has_self_intersections(&self, mesh: &T::Mesh) -> bool {
         // TODO: Test this
-        self.vertices_2d(mesh)
+        // the newell normal might vanish if the face intersects itself
+        let n = self.most_pronounced_corner(mesh);
+        if n.length() <= T::S::ZERO {
+            return false; // all vertices are collinear
+        }
+        let z_axis = T::Vec::new(0.0.into(), 0.0.into(), 1.0.into());
+        let rotation =
+            <T::Trans as TransformTrait<T::S, 3>>::from_rotation_arc(n.normalize(), z_axis);
+        self.vertices(mesh)
+            .map(|v| rotation.apply(v.pos()).vec2())
             .circular_tuple_windows::<(_, _)>()
             .tuple_combinations::<(_, _)>()
-            .any(|(((a1, _), (a2, _)), ((b1, _), (b2, _)))| {
+            .any(|((a1, a2), (b1, b2))| {
                 let l1 = LineSegment2D::<T::Vec2>::new(a1, a2);
                 let l2 = LineSegment2D::<T::Vec2>::new(b1, b2);
                 let res = l1.intersect_line(&l2, T::S::EPS, -T::S::EPS);
-- 
2.43.0


From 3f02ce82f3621be63e03c77c75d0db143ad93e4e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:40:46 +0000
Subject: [PATCH 50/54] fix: let verify_no_intersections reject triangulations
 that use an edge twice

---
 src/mesh/triangulation.rs | 12 ++++++++++++
 1 file changed, 12 insertions(+)

diff --git a/src/mesh/triangulation.rs b/src/mesh/triangulation.rs
index 7bdf863..c4c2eed 100644
--- a/src/mesh/triangulation.rs
+++ b/src/mesh/triangulation.rs
@@ -246,6 +246,18 @@ impl<'a, V: IndexType> Triangulation<'a, V> {
                         let i3 = self.get_index(j + (l + 1) % 3);
                         let v3 = vec_hm[&i3];
 
+                        // Both triangles are on the same side of the edge
+                        assert!(
+                            i0 != i2 || i1 != i3,
+                            "Edge {} {:?} -> {} {:?} is used twice by the triangles {:?} and {:?}",
+                            i0,
+                            v0,
+                            i1,
+                            v1,
+                            (self.get_index(i), self.get_index(i+1), self.get_index(i+2)),
+                            (self.get_index(j), self.get_index(j+1), self.get_index(j+2)),
+                        );
+
                         // If they share a vertex, they can't intersect
                         if i0 == i2 || i0 == i3 || i1 == i2 || i1 == i3 {
                             continue;
-- 
2.43.0


From 1506e9069e9ae05a38c45943b1ac047e21a26bc3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:45:25 +0000
Subject: [PATCH 51/54] fix: measure the tolerance of verify_no_intersections
 relative to the edges only

---
 src/mesh/triangulation.rs | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/src/mesh/triangulation.rs b/src/mesh/triangulation.rs
index c4c2eed..ff253f0 100644
--- a/src/mesh/triangulation.rs
+++ b/src/mesh/triangulation.rs
@@ -265,11 +265,10 @@ impl<'a, V: IndexType> Triangulation<'a, V> {
 
                         let l1 = LineSegment2D::new(v0, v1);
                         let l2 = LineSegment2D::new(v2, v3);
-                        let length = l1.length() + l2.length();
                         let inter = l1.intersect_line(
                             &l2,
                             Vec2::S::EPS.sqrt(), // be strict about parallel edges
-                            -Vec2::S::EPS.sqrt() * length, // Allow intersections/touching at the endpoints up to a portion of sqrt(eps), i.e., 0.0345% for f32
+                            -Vec2::S::EPS.sqrt(), // Allow intersections/touching at the endpoints up to a portion of sqrt(eps), i.e., 0.0345% for f32
                         );
                         assert!(
                             inter.is_none(),
-- 
2.43.0


From ff7ab4d0af9bc9af8c3a57e2a1198d34ae7b4a41 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:52:10 +0000
Subject: [PATCH 52/54] fix: measure the planarity against the largest triangle
 with a longest side

---
 src/mesh/face/face3d.rs | 35 +++++++++++++++--------------------
 1 file changed, 15 insertions(+), 20 deletions(-)

diff --git a/src/mesh/face/face3d.rs b/src/mesh/face/face3d.rs
index 9f7da8c..3cce49a 100644
--- a/src/mesh/face/face3d.rs
+++ b/src/mesh/face/face3d.rs
@@ -66,28 +66,23 @@ pub trait Face3d<T: MeshType3D<Face = Self>>: FaceBasics<T> {
     fn is_planar(&self, mesh: &T::Mesh, eps: T::S) -> bool {
         let ps: Vec<_> = self.vertices(mesh).map(|v| v.pos()).collect();
 
-        // the largest triangle of the fan, since some of them might be degenerated
-        let mut n = T::Vec::zero();
-        let mut d = T::Vec::zero();
-        for i in 1..ps.len() {
-            let (a, b) = (ps[i - 1] - ps[0], ps[i] - ps[0]);
-            let c = a.cross(&b);
-            if c.length_squared() > n.length_squared() {
-                n = c;
+        let largest = |a: T::Vec, b: T::Vec| {
+            if b.length_squared() > a.length_squared() {
+                b
+            } else {
+                a
             }
-            if b.length_squared() > d.length_squared() {
-                d = b;
-            }
-        }
+        };
+
+        // the normal of a triangle with a longest possible side and the largest possible height
+        let d = ps.iter().map(|p| *p - ps[0]).fold(T::Vec::zero(), largest);
+        let n = ps
+            .iter()
+            .map(|p| d.cross(&(*p - ps[0])))
+            .fold(T::Vec::zero(), largest);
         let length = n.length();
-        if length <= T::S::ZERO {
-            return true; // all vertices are collinear
-        }
-
-        // if all vertices are nearly collinear, the normal consists of rounding errors
-        let width = d.length() * eps;
-        if ps.iter().all(|p| (*p - ps[0]).cross(&d).length() < width) {
-            return true;
+        if length <= T::S::ZERO || length < eps * d.length() {
+            return true; // all vertices are (nearly) collinear
         }
 
         ps.iter()
-- 
2.43.0


From d448c70759e59bea03b275b7ad6e98f780ea0b9d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:52:10 +0000
Subject: [PATCH 53/54] fix: ignore parallel edges in has_self_intersections
 regardless of the scale

---
 src/mesh/face/face3d.rs | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/src/mesh/face/face3d.rs b/src/mesh/face/face3d.rs
index 3cce49a..e28a9f7 100644
--- a/src/mesh/face/face3d.rs
+++ b/src/mesh/face/face3d.rs
@@ -107,6 +107,10 @@ pub trait Face3d<T: MeshType3D<Face = Self>>: FaceBasics<T> {
         if n.length() <= T::S::ZERO {
             return false; // all vertices are collinear
         }
+        let noise = T::S::from(8.0)
+            * self
+                .vertices(mesh)
+                .fold(T::S::ZERO, |s, v| Scalar::max(&s, v.pos().length()));
         let z_axis = T::Vec::new(0.0.into(), 0.0.into(), 1.0.into());
         let rotation =
             <T::Trans as TransformTrait<T::S, 3>>::from_rotation_arc(n.normalize(), z_axis);
@@ -117,7 +121,9 @@ pub trait Face3d<T: MeshType3D<Face = Self>>: FaceBasics<T> {
             .any(|((a1, a2), (b1, b2))| {
                 let l1 = LineSegment2D::<T::Vec2>::new(a1, a2);
                 let l2 = LineSegment2D::<T::Vec2>::new(b1, b2);
-                let res = l1.intersect_line(&l2, T::S::EPS, -T::S::EPS);
+                // parallel edges might seem to cross due to rounding errors
+                let eps = T::S::EPS * noise * (l1.length() + l2.length());
+                let res = l1.intersect_line(&l2, eps, -T::S::EPS);
                 res.is_some()
             })
     }
-- 
2.43.0


From caca77ce944876303196ae9a7c9fb69078b56acb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:23:27 +0000
Subject: [PATCH 54/54] fix: PathBuilder::start_at started inside an existing
 face

The representative edge of the vertex may belong to a face; the path then
could not be closed. Prefer an outgoing edge on the boundary.
---
 src/mesh/mesh/path_builder.rs | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/src/mesh/mesh/path_builder.rs b/src/mesh/mesh/path_builder.rs
index e9fa4f6..a53669a 100644
--- a/src/mesh/mesh/path_builder.rs
+++ b/src/mesh/mesh/path_builder.rs
@@ -75,7 +75,13 @@ where
     {
         // TODO: implement this without requiring `HalfEdge`
 
-        if let Some(edge) = mesh.vertex(v).edge(mesh) {
+        // Prefer an edge on the boundary: the path must not start inside an existing face.
+        let edge = mesh
+            .vertex(v)
+            .edges_out(mesh)
+            .find(|e| e.is_boundary_self())
+            .or_else(|| mesh.vertex(v).edge(mesh));
+        if let Some(edge) = edge {
             Self::start_at_edge(mesh, edge.prev_id())
         } else {
             Self {
-- 
2.43.0

