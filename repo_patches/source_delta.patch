From 8cd765f4d486ac92cf67db6d8fcef6e06ac6eac5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:34:27 +0000
Subject: [PATCH 01/38] fix: evaluate the in-circle determinant relative to the
 tested vertex

The 4x4 LU determinant of absolute coordinates loses the significant digits of
near and cocircular points, so that the insertion cavity depended on rounding
and whole triangulations were lost for some hash orders.
---
 src/properties/continence.rs | 19 +++++++++++++------
 1 file changed, 13 insertions(+), 6 deletions(-)

diff --git a/src/properties/continence.rs b/src/properties/continence.rs
index 5d8767a..fb47a54 100644
--- a/src/properties/continence.rs
+++ b/src/properties/continence.rs
@@ -2,7 +2,7 @@ extern crate nalgebra;
 
 use crate::elements::vertex::*;
 
-use nalgebra::Matrix4;
+use nalgebra::Matrix3;
 
 #[derive(PartialEq, Debug)]
 pub enum Continence {
@@ -22,11 +22,18 @@ pub enum BoundaryInclusion {
  * Vertices a, b and c must be in counterclockwise order.
  */
 pub fn continence(a: &Vertex, b: &Vertex, c: &Vertex, d: &Vertex) -> Continence {
-    let matrix = Matrix4::new(
-        a.x, a.y, a.x.powi(2) + a.y.powi(2), 1.0,
-        b.x, b.y, b.x.powi(2) + b.y.powi(2), 1.0,
-        c.x, c.y, c.x.powi(2) + c.y.powi(2), 1.0,
-        d.x, d.y, d.x.powi(2) + d.y.powi(2), 1.0,
+    /*
+        Coordinates are taken relative to d, so that the determinant is 3x3
+        and does not lose the significant digits of near points.
+    */
+    let (adx, ady) = (a.x - d.x, a.y - d.y);
+    let (bdx, bdy) = (b.x - d.x, b.y - d.y);
+    let (cdx, cdy) = (c.x - d.x, c.y - d.y);
+
+    let matrix = Matrix3::new(
+        adx, ady, adx.powi(2) + ady.powi(2),
+        bdx, bdy, bdx.powi(2) + bdy.powi(2),
+        cdx, cdy, cdx.powi(2) + cdy.powi(2),
     );
     let det = matrix.determinant();
 
-- 
2.43.0


From ad785ca1a33e914ef9937fa0499e76fc011fd79c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:38:03 +0000
Subject: [PATCH 02/38] fix: never drop a pending vertex, grow its cavity from
 the triangle it lies in

A vertex whose conflict triangle was removed was only offered to the triangles
created by that insertion; when an older triangle held it, it was silently
lost, for some hash orders. Starting the cavity at any triangle that encircles
the vertex also crossed constrained segments and, with two holes, started at
the ghost triangles of another hole.
---
 .../triangulation_procedures/vertices.rs      | 86 +++++++++++++------
 1 file changed, 59 insertions(+), 27 deletions(-)

diff --git a/src/planar/triangulation_procedures/vertices.rs b/src/planar/triangulation_procedures/vertices.rs
index ea0780a..cd2f072 100644
--- a/src/planar/triangulation_procedures/vertices.rs
+++ b/src/planar/triangulation_procedures/vertices.rs
@@ -1,6 +1,6 @@
 use crate::elements::{edge::*, polyline::*, triangle::*, vertex::*};
 use crate::planar::{triangulation::*, triangulation_procedures};
-use crate::properties::continence::*;
+use crate::properties::{continence::*, orientation::*};
 
 use std::collections::{HashMap, HashSet};
 use std::rc::Rc;
@@ -23,18 +23,13 @@ pub fn include(
         .collect();
 
     let mut conflict_map: HashMap<Rc<Triangle>, Vec<Rc<Vertex>>> = HashMap::new();
-    for possible_triangle in triangulation.triangles.iter() {
-        if vertices.is_empty() {
-            break;
-        }
-        distribute_conflicts(
-            possible_triangle,
-            &mut conflict_map,
-            &mut vertices,
-            boundary,
-            holes,
-        );
-    }
+    distribute_remaining(
+        triangulation,
+        &mut conflict_map,
+        &mut vertices,
+        boundary,
+        holes,
+    );
 
     return solve_conflicts(
         triangulation,
@@ -125,8 +120,9 @@ pub fn solve_conflicts(
             let is_constrained = segment_constraints.contains(&edge_to_outer_triangle)
                 || segment_constraints.contains(&edge);
 
-            let may_insert =
-                may_insert_triangle(&outer_triangle, &conflict_vertex, boundary, holes);
+            let may_insert = is_conflicting
+                && !is_constrained
+                && may_insert_triangle(&outer_triangle, &conflict_vertex, boundary, holes);
 
             // Uncomment to debug
             // println!(
@@ -139,7 +135,7 @@ pub fn solve_conflicts(
             //     may_insert,
             // );
 
-            if is_conflicting && !is_constrained && may_insert {
+            if may_insert {
                 triangulation.remove_triangle(&outer_triangle);
                 removed_triangles.insert(Rc::clone(&outer_triangle));
 
@@ -173,20 +169,43 @@ pub fn solve_conflicts(
                 triangulation.include_triangle(&new_triangle);
                 included_triangles.insert(Rc::clone(&new_triangle));
 
-                distribute_conflicts(
-                    &new_triangle,
-                    conflict_map,
-                    remaining_vertices,
-                    boundary,
-                    holes,
-                );
             }
         } /* end - while pending edges */
+
+        distribute_remaining(
+            triangulation,
+            conflict_map,
+            remaining_vertices,
+            boundary,
+            holes,
+        );
     } /* end - distributing vertices */
 
     return (included_triangles, removed_triangles);
 }
 
+/**
+ * Looks for a conflict to each remaining vertex among all triangles.
+ * Ghost triangles are left to the vertices no solid triangle holds.
+ */
+fn distribute_remaining(
+    triangulation: &Triangulation,
+    conflict_map: &mut HashMap<Rc<Triangle>, Vec<Rc<Vertex>>>,
+    vertices: &mut Vec<Rc<Vertex>>,
+    boundary: &Option<Rc<Polyline>>,
+    holes: &HashSet<Rc<Polyline>>,
+) {
+    let solid_triangles = triangulation.triangles.iter().filter(|t| !t.is_ghost());
+    let ghost_triangles = triangulation.triangles.iter().filter(|t| t.is_ghost());
+
+    for triangle in solid_triangles.chain(ghost_triangles) {
+        if vertices.is_empty() {
+            break;
+        }
+        distribute_conflicts(triangle, conflict_map, vertices, boundary, holes);
+    }
+} /* end - distribute remaining */
+
 /**
  * Includes into the conflit_map the conflicts between the given triangle
  * and the available vertices. The conflict will be avoided if it violates
@@ -203,11 +222,10 @@ fn distribute_conflicts(
 
     for _ in 0..vertices.len() {
         let pending_vertex: Rc<Vertex> = vertices.remove(0);
-        let has_conflict = triangle.encircles(&pending_vertex) == Continence::Inside;
-
-        let may_insert = may_insert_triangle(&triangle, &pending_vertex, boundary, holes);
+        let has_conflict = triangle.encircles(&pending_vertex) == Continence::Inside
+            && holds_vertex(triangle, &pending_vertex);
 
-        if has_conflict && may_insert {
+        if has_conflict && may_insert_triangle(&triangle, &pending_vertex, boundary, holes) {
             distributed_conflicts.push(pending_vertex);
             continue;
         }
@@ -225,6 +243,20 @@ fn distribute_conflicts(
     }
 } /* end - distribute conflicts  */
 
+/**
+ * Evaluates if the vertex is not outside the solid triangle. The cavity of a
+ * vertex must grow from the triangle it lies in, since any other triangle that
+ * encircles it may be at the other side of a constrained segment.
+ */
+fn holds_vertex(triangle: &Rc<Triangle>, vertex: &Rc<Vertex>) -> bool {
+    if triangle.is_ghost() {
+        return true;
+    }
+    return orientation(&triangle.v1, &triangle.v2, vertex) != Orientation::Clockwise
+        && orientation(&triangle.v2, &triangle.v3, vertex) != Orientation::Clockwise
+        && orientation(&triangle.v3, &triangle.v1, vertex) != Orientation::Clockwise;
+}
+
 pub fn distribute_conflicts_over_triangulation(
     triangulation: &mut Triangulation,
     initial_triangle: Option<Rc<Triangle>>,
-- 
2.43.0


From 64d919fcae962b0e565b820ffcd11d127b20f34b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:38:03 +0000
Subject: [PATCH 03/38] fix: a triangle must be outside every hole, not the
 last one iterated

---
 src/planar/triangulation_procedures/vertices.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/planar/triangulation_procedures/vertices.rs b/src/planar/triangulation_procedures/vertices.rs
index cd2f072..aac6512 100644
--- a/src/planar/triangulation_procedures/vertices.rs
+++ b/src/planar/triangulation_procedures/vertices.rs
@@ -328,7 +328,7 @@ fn may_insert_triangle(
 
     for hole in holes.iter() {
         if let Some((continence, _)) = Polyline::continence(&hole, &p2) {
-            is_outside_holes = continence != Continence::Inside;
+            is_outside_holes = is_outside_holes && continence != Continence::Inside;
         } else {
             is_outside_holes = false;
         }
-- 
2.43.0


From 356b7f8b848148391cf889dc0bedf466fe066ff1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:39:47 +0000
Subject: [PATCH 04/38] fix: include a segment by retriangulating the triangles
 it crosses

The retriangulated region also held every triangle encircling an end vertex; it
was often not a simple polygon (panic or endless loop while including holes) or
lost its own constrained edges, depending on the hash order of previous holes
and segments.
---
 src/planar/triangulation_procedures/hole.rs   |  13 +-
 .../triangulation_procedures/segment.rs       | 202 ++++++++++--------
 2 files changed, 109 insertions(+), 106 deletions(-)

diff --git a/src/planar/triangulation_procedures/hole.rs b/src/planar/triangulation_procedures/hole.rs
index 697e862..6b1608d 100644
--- a/src/planar/triangulation_procedures/hole.rs
+++ b/src/planar/triangulation_procedures/hole.rs
@@ -48,19 +48,10 @@ pub fn include(
     // }
 
     /* Inserts missing segments */
-    loop {
-        let existing_segments: HashSet<Rc<Edge>> = triangulation.edges();
-        let missing_segment = hole_segments
-            .iter()
-            .find(|&e| !existing_segments.contains(e));
-
-        if missing_segment.is_none() {
-            break;
-        }
-
+    for hole_segment in hole_segments.iter() {
         triangulation_procedures::segment::include(
             triangulation,
-            missing_segment.unwrap(),
+            hole_segment,
             &segment_constraints,
         );
     }
diff --git a/src/planar/triangulation_procedures/segment.rs b/src/planar/triangulation_procedures/segment.rs
index c6efc8d..1a0c23f 100644
--- a/src/planar/triangulation_procedures/segment.rs
+++ b/src/planar/triangulation_procedures/segment.rs
@@ -1,4 +1,4 @@
-use crate::elements::{edge::*, polyline::*, triangle::*, vertex::*};
+use crate::elements::{edge::*, triangle::*, vertex::*};
 use crate::planar::triangulation::*;
 use crate::properties::{continence::*, orientation::*};
 
@@ -9,121 +9,133 @@ use std::rc::Rc;
 
 /**
  * Includes Segment.
- * Takes all triangles that intercept the segment or whose circumcircle encircles
- * one of its end vertices, retriangulates the vertices of the triangle around the
- * segment having the segment as constraint. Reinserts the taken triangulation into
- * the main triangulation.
+ * Inserts its end vertices, takes all triangles that the segment crosses and
+ * retriangulates both sides of the segment with the vertices of the triangles
+ * taken. A vertex that lies on the segment splits it.
  */
 pub fn include(
     triangulation: &mut Triangulation,
     segment: &Rc<Edge>,
     segment_constraints: &HashSet<Rc<Edge>>,
 ) {
-    let conflicting_triangles: HashSet<Rc<Triangle>> = triangulation
-        .triangles
-        .iter()
-        .filter(|t| !t.is_ghost())
-        .filter(|triangle| {
-            let polyline = triangle.as_polyline().unwrap();
-            let segment_polyline = segment.as_polyline().unwrap();
-
-            let contains_segment = Polyline::continence(&polyline, &segment_polyline)
-                != Some((Continence::Outside, BoundaryInclusion::Open));
-
-            let conflicts_v1 = triangle.encircles(&segment.v1) != Continence::Outside;
-            let conflicts_v2 = triangle.encircles(&segment.v2) != Continence::Outside;
+    triangulation_procedures::vertices::include(
+        triangulation,
+        vec![Rc::clone(&segment.v1), Rc::clone(&segment.v2)],
+        segment_constraints,
+        &None,
+        &HashSet::new(),
+    );
 
-            return conflicts_v1 || conflicts_v2 || contains_segment;
-        })
-        .filter(|triangle| {
-            let (e1, e2, e3) = triangle.outer_edges();
-            let is_constrained = vec![e1, e2, e3]
-                .iter()
-                .filter(|&edge| {
-                    segment_constraints.contains(edge)
-                        || segment_constraints.contains(&edge.opposite())
-                })
-                .fold(false, |acc, edge| {
-                    if acc == true {
-                        return true;
-                    }
-                    let faces_v1 = orientation(&edge.v1, &edge.v2, &segment.v1)
-                        == Orientation::Counterclockwise;
-                    let faces_v2 = orientation(&edge.v1, &edge.v2, &segment.v2)
-                        == Orientation::Counterclockwise;
-
-                    return faces_v1 || faces_v2;
-                });
-            return !is_constrained;
-        })
-        .cloned()
-        .collect();
+    if triangulation.adjacency.contains_key(segment)
+        || triangulation.adjacency.contains_key(&segment.opposite())
+    {
+        return;
+    }
 
-    // Uncomment to debug
-    // println!("\n\nSolid Triangles");
-    // for t in triangulation.triangles.iter().filter(|t| !t.is_ghost()) {
-    //     println!("{}", t);
-    // }
-    // println!("\nConflicting Triangles against {}", segment);
-    // for t in conflicting_triangles.iter() {
-    //     println!("{}", t);
-    // }
-
-    for conflicting_triangle in conflicting_triangles.iter() {
-        triangulation.remove_triangle(conflicting_triangle);
+    let middle_vertex = triangulation
+        .vertices()
+        .iter()
+        .find(|&v| v != &segment.v1 && v != &segment.v2 && segment.contains(v))
+        .cloned();
+
+    if let Some(vertex) = middle_vertex {
+        let half_1 = Rc::new(Edge::new(&segment.v1, &vertex));
+        let half_2 = Rc::new(Edge::new(&vertex, &segment.v2));
+        include(triangulation, &half_1, segment_constraints);
+        include(triangulation, &half_2, segment_constraints);
+        return;
     }
 
-    let triangles_boundary: Rc<Polyline> =
-        Rc::new(Polyline::triangles_hull(&conflicting_triangles).unwrap());
+    /* Walks from v1 to v2, keeping the vertices at each side */
+    let side = |v: &Vertex| orientation(&segment.v1, &segment.v2, v);
 
-    let conflicting_vertices: HashSet<Rc<Vertex>> = conflicting_triangles
+    let first_triangle = triangulation
+        .triangles
         .iter()
-        .map(|triangle| {
-            vec![
-                Rc::clone(&triangle.v1),
-                Rc::clone(&triangle.v2),
-                Rc::clone(&triangle.v3),
-            ]
+        .filter(|t| !t.is_ghost())
+        .find(|t| match t.opposite_edge(&segment.v1) {
+            Some(edge) => {
+                side(&edge.v1) == Orientation::Clockwise
+                    && side(&edge.v2) == Orientation::Counterclockwise
+            }
+            None => false,
         })
-        .flatten()
-        .collect();
+        .cloned();
+
+    let mut crossed_triangles: Vec<Rc<Triangle>> = Vec::new();
+    let mut crossed_edge: Rc<Edge>;
+    match first_triangle {
+        Some(triangle) => {
+            crossed_edge = triangle.opposite_edge(&segment.v1).unwrap();
+            crossed_triangles.push(triangle);
+        }
+        None => return, /* segment leaves the triangulation */
+    }
 
-    let mut segment_triangulation = Triangulation::from_initial_segment((&segment.v1, &segment.v2));
+    let mut right_vertices: Vec<Rc<Vertex>> = vec![Rc::clone(&crossed_edge.v1)];
+    let mut left_vertices: Vec<Rc<Vertex>> = vec![Rc::clone(&crossed_edge.v2)];
 
-    let new_segment_constraint: HashSet<Rc<Edge>> =
-        vec![Rc::clone(&segment)].iter().cloned().collect();
+    loop {
+        let outer_edge = Rc::new(crossed_edge.opposite());
+        let triangle = match triangulation.adjacency.get(&outer_edge) {
+            Some(triangle) if !triangle.is_ghost() => Rc::clone(triangle),
+            _ => return, /* segment leaves the triangulation */
+        };
+        let vertex = triangle.opposite_vertex(&outer_edge).unwrap();
+        crossed_triangles.push(triangle);
 
-    triangulation_procedures::boundary::include(
-        &mut segment_triangulation,
-        &triangles_boundary,
-        &new_segment_constraint,
-    );
+        if vertex == segment.v2 {
+            break;
+        }
+        if side(&vertex) == Orientation::Counterclockwise {
+            crossed_edge = Rc::new(Edge::new(&crossed_edge.v1, &vertex));
+            left_vertices.push(vertex);
+        } else {
+            crossed_edge = Rc::new(Edge::new(&vertex, &crossed_edge.v2));
+            right_vertices.push(vertex);
+        }
+    }
 
-    triangulation_procedures::vertices::include(
-        &mut segment_triangulation,
-        conflicting_vertices.iter().cloned().collect(),
-        &new_segment_constraint,
-        &Some(Rc::clone(&triangles_boundary)),
-        &HashSet::new(),
-    );
+    for triangle in crossed_triangles.iter() {
+        triangulation.remove_triangle(triangle);
+    }
 
-    let new_solid_triangles: HashSet<Rc<Triangle>> = segment_triangulation
-        .triangles
-        .iter()
-        .filter(|t| !t.is_ghost())
-        .cloned()
-        .collect();
+    right_vertices.reverse();
+    fill_cavity(triangulation, &segment.v1, &segment.v2, &left_vertices);
+    fill_cavity(triangulation, &segment.v2, &segment.v1, &right_vertices);
+} /* end - include segment */
 
-    // Uncomment to debug
-    // println!("\nNew Solid Triangles");
-    // for t in new_solid_triangles.iter() {
-    //     println!("{}", t);
-    // }
+/**
+ * Triangulates the cavity between the edge v1-v2 and the vertices at its
+ * left side, which are ordered from v1 to v2.
+ */
+fn fill_cavity(
+    triangulation: &mut Triangulation,
+    v1: &Rc<Vertex>,
+    v2: &Rc<Vertex>,
+    vertices: &[Rc<Vertex>],
+) {
+    let mut possible_index: Option<usize> = None;
+    for (index, vertex) in vertices.iter().enumerate() {
+        if orientation(v1, v2, vertex) != Orientation::Counterclockwise {
+            continue;
+        }
+        let should_take = match possible_index {
+            Some(taken) => continence(v1, v2, &vertices[taken], vertex) == Continence::Inside,
+            None => true,
+        };
+        if should_take {
+            possible_index = Some(index);
+        }
+    }
 
-    for new_triangle in new_solid_triangles.iter() {
-        triangulation.include_triangle(new_triangle);
+    if let Some(index) = possible_index {
+        let v3 = &vertices[index];
+        triangulation.include_triangle(&Rc::new(Triangle::new(v1, v2, v3)));
+        fill_cavity(triangulation, v1, v3, &vertices[..index]);
+        fill_cavity(triangulation, v3, v2, &vertices[index + 1..]);
     }
-} /* end - include segment */
+} /* end - fill cavity */
 
 #[cfg(test)]
 mod include_segment {
-- 
2.43.0


From 58e3f4c34884cdfaff437b19ce2ce6cb989b0f57 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:39:47 +0000
Subject: [PATCH 05/38] fix: include the boundary segments missing from the
 triangulation

When a boundary segment is not Delaunay among the boundary vertices, carving
the outer space flowed through it and removed every triangle.
---
 .../triangulation_procedures/boundary.rs      | 23 ++++++-------------
 1 file changed, 7 insertions(+), 16 deletions(-)

diff --git a/src/planar/triangulation_procedures/boundary.rs b/src/planar/triangulation_procedures/boundary.rs
index d7b9639..54b8cc9 100644
--- a/src/planar/triangulation_procedures/boundary.rs
+++ b/src/planar/triangulation_procedures/boundary.rs
@@ -31,22 +31,13 @@ pub fn include(
     );
 
     /* Inserts missing segments */
-    // let existing_segments: HashSet<Rc<Edge>> = triangulation.edges();
-    // let missing_segments: HashSet<Rc<Edge>> = boundary_segments
-    //     .iter()
-    //     .filter(|&e| !existing_segments.contains(e))
-    //     .cloned()
-    //     .collect();
-
-    // let segment_contraints = segment_constraints
-    //     .iter()
-    //     .chain(boundary_segments.iter())
-    //     .cloned()
-    //     .collect();
-
-    // for segment in missing_segments.iter() {
-    //     Self::include_segment(triangulation, segment, &segment_contraints);
-    // }
+    for boundary_segment in boundary_segments.iter() {
+        triangulation_procedures::segment::include(
+            triangulation,
+            boundary_segment,
+            segment_constraints,
+        );
+    }
 
     /* Inserting outer hole */
     let mut pending_edges: Vec<Rc<Edge>> = Vec::new();
-- 
2.43.0


From 6713e0f2b5ebdb8a9e216bec5bec253395dbd922 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:56:45 +0000
Subject: [PATCH 06/38] fix: keep splitting while a segment is encroached or a
 triangle is irregular

The midpoints and circumcenters inserted while refining were never tested
against the other segments, the halves of a split segment were not protected,
and an irregular triangle was forgotten once its circumcenter was rejected or
not found: irregular triangles, non Delaunay edges, missing segments and flat
triangles (panic) were left. Segments of a sharp corner are only split when
that ends.
---
 src/planar/refine_procedures/encroachment.rs  | 260 +++++++++---------
 .../refine_procedures/triangle_split.rs       | 168 ++++++-----
 .../triangulation_procedures/vertices.rs      |  66 +++++
 3 files changed, 294 insertions(+), 200 deletions(-)

diff --git a/src/planar/refine_procedures/encroachment.rs b/src/planar/refine_procedures/encroachment.rs
index 469c39d..ac8af08 100644
--- a/src/planar/refine_procedures/encroachment.rs
+++ b/src/planar/refine_procedures/encroachment.rs
@@ -1,6 +1,6 @@
 use crate::elements::{edge::*, polyline::*, triangle::*, vertex::*};
 use crate::planar::{triangulation::*, triangulation_procedures};
-use crate::properties::continence::*;
+use crate::properties::{continence::*, dot::*, orientation::*};
 
 use std::collections::{HashMap, HashSet};
 use std::rc::Rc;
@@ -18,78 +18,50 @@ pub fn unencroach(
     HashSet<Rc<Triangle>>,
     HashSet<Rc<Triangle>>,
 ) {
-    let mut included_triangles: HashSet<Rc<Triangle>> = HashSet::new();
-    let mut removed_triangles: HashSet<Rc<Triangle>> = HashSet::new();
-
+    let mut segment_contraints: HashSet<Rc<Edge>> = segment_contraints.iter().cloned().collect();
     let mut split_map: HashMap<Rc<Edge>, Rc<Edge>> = HashMap::new();
-    let mut encroach_map: HashMap<Rc<Edge>, HashSet<Rc<Vertex>>> = HashMap::new();
-
-    distribute_encroachments(
-        segment_contraints,
-        &triangulation.vertices(),
-        &mut encroach_map,
-    );
 
-    while !encroach_map.is_empty() {
-        let encroached_edge = Rc::clone(encroach_map.keys().next().unwrap());
-        let mut encroaching_vertices = encroach_map.remove(&encroached_edge).unwrap();
-
-        let (new_edges, new_triangles, old_triangles) = unencroach_segment(
-            triangulation,
-            &encroached_edge,
-            &mut encroaching_vertices,
-            segment_contraints,
-            boundary,
-            holes,
-        );
-
-        for e in new_edges.iter() {
-            split_map.insert(Rc::clone(e), Rc::clone(&encroached_edge));
-        }
-
-        included_triangles = included_triangles
-            .iter()
-            .chain(new_triangles.iter())
-            .filter(|&t| old_triangles.contains(t))
-            .cloned()
-            .collect();
+    let encroached_edges: Vec<Rc<Edge>> = segment_contraints
+        .iter()
+        .filter(|e| is_encroached(triangulation, e, &segment_contraints))
+        .cloned()
+        .collect();
 
-        removed_triangles = removed_triangles
-            .iter()
-            .chain(old_triangles.iter())
-            .cloned()
-            .collect();
-    }
+    let (included_triangles, removed_triangles) = unencroach_segments(
+        triangulation,
+        encroached_edges,
+        &mut segment_contraints,
+        &mut split_map,
+        boundary,
+        holes,
+    );
 
     return (split_map, included_triangles, removed_triangles);
 }
 
 /**
- * Splits the segment and its subsegments until none is encroached.
- * Returns new subsegments.
+ * Splits the segments, and then any subsegment or other segment that gets
+ * encroached, until none is. The segment constraints are replaced by their
+ * halves, which are mapped to the segment they come from.
  */
-pub fn unencroach_segment(
+pub fn unencroach_segments(
     triangulation: &mut Triangulation,
-    encroached_edge: &Rc<Edge>,
-    encroaching_vertices: &mut HashSet<Rc<Vertex>>,
-    segment_contraints: &HashSet<Rc<Edge>>,
+    mut pending_edges: Vec<Rc<Edge>>,
+    segment_contraints: &mut HashSet<Rc<Edge>>,
+    split_map: &mut HashMap<Rc<Edge>, Rc<Edge>>,
     boundary: &Option<Rc<Polyline>>,
     holes: &HashSet<Rc<Polyline>>,
-) -> (
-    HashSet<Rc<Edge>>,
-    HashSet<Rc<Triangle>>,
-    HashSet<Rc<Triangle>>,
-) {
+) -> (HashSet<Rc<Triangle>>, HashSet<Rc<Triangle>>) {
     let mut included_triangles: HashSet<Rc<Triangle>> = HashSet::new();
     let mut removed_triangles: HashSet<Rc<Triangle>> = HashSet::new();
 
-    let mut new_edges: HashSet<Rc<Edge>> = HashSet::new();
-    let mut pending_edges: Vec<Rc<Edge>> = Vec::new();
-
-    pending_edges.push(Rc::clone(&encroached_edge));
-
-    while !pending_edges.is_empty() {
-        let pending_edge = pending_edges.pop().unwrap();
+    while let Some(pending_edge) = pending_edges.pop() {
+        let opposite_edge = Rc::new(pending_edge.opposite());
+        let is_segment = segment_contraints.remove(&pending_edge);
+        let is_opposite_segment = segment_contraints.remove(&opposite_edge);
+        if !is_segment && !is_opposite_segment {
+            continue; /* already split */
+        }
 
         let (h1, h2, new_triangles, old_triangles) = split_segment(
             triangulation,
@@ -99,78 +71,111 @@ pub fn unencroach_segment(
             holes,
         );
 
-        included_triangles = included_triangles
-            .iter()
-            .chain(new_triangles.iter())
-            .filter(|&t| !old_triangles.contains(t))
-            .cloned()
-            .collect();
+        let parent_edge = match split_map.remove(&pending_edge) {
+            Some(parent_edge) => parent_edge,
+            None => match split_map.remove(&opposite_edge) {
+                Some(parent_edge) => parent_edge,
+                None if is_segment => Rc::clone(&pending_edge),
+                None => opposite_edge,
+            },
+        };
+
+        for half in vec![&h1, &h2] {
+            segment_contraints.insert(Rc::clone(half));
+            split_map.insert(Rc::clone(half), Rc::clone(&parent_edge));
+        }
 
-        removed_triangles = removed_triangles
+        /* The midpoint may encroach any segment it sees */
+        let seen_edges = new_triangles
             .iter()
-            .chain(old_triangles.iter())
-            .cloned()
-            .collect();
-
-        let mut is_h1_encroached = false;
-        let mut is_h2_encroached = false;
+            .filter(|t| !t.is_ghost())
+            .filter_map(|t| t.opposite_edge(&h1.v2))
+            .filter(|e| is_constrained(e, segment_contraints));
 
-        for v in encroaching_vertices
-            .iter()
-            .cloned()
-            .collect::<HashSet<Rc<Vertex>>>()
-            .iter()
-        {
-            let mut v_encroaches_any = false;
-            if h1.encroach(&v) == Continence::Inside {
-                is_h1_encroached = true;
-                v_encroaches_any = true;
-            }
-            if h2.encroach(&v) == Continence::Inside {
-                is_h2_encroached = true;
-                v_encroaches_any = true;
-            }
-            if !v_encroaches_any {
-                encroaching_vertices.remove(v);
+        for edge in seen_edges.chain(vec![Rc::clone(&h1), Rc::clone(&h2)]) {
+            if is_encroached(triangulation, &edge, segment_contraints) {
+                pending_edges.push(edge);
             }
         }
 
-        if is_h1_encroached {
-            pending_edges.push(h1);
-        } else {
-            new_edges.insert(h1);
-        }
-
-        if is_h2_encroached {
-            pending_edges.push(h2);
-        } else {
-            new_edges.insert(h2);
+        for old_triangle in old_triangles.iter() {
+            if !included_triangles.remove(old_triangle) {
+                removed_triangles.insert(Rc::clone(old_triangle));
+            }
         }
+        included_triangles.extend(new_triangles);
     } /* end - for pending edges */
 
-    return (new_edges, included_triangles, removed_triangles);
-} /* end - unencroach_segment */
+    return (included_triangles, removed_triangles);
+} /* end - unencroach_segments */
 
 /**
- * Populates encroach_map with encroachments of segments against a collection of vertices.
- * A vertex will be copied to more than a collection if it is encroached more than once.
+ * Evaluates if the edge, whatever its direction, is a segment constraint
  */
-pub fn distribute_encroachments(
-    segments: &HashSet<Rc<Edge>>,
-    vertices: &HashSet<Rc<Vertex>>,
-    encroach_map: &mut HashMap<Rc<Edge>, HashSet<Rc<Vertex>>>,
-) {
-    for edge in segments.iter() {
-        let mut possible_encroached_vertices: HashSet<Rc<Vertex>> = HashSet::new();
-        for vertex in vertices.iter() {
-            if edge.encroach(vertex) == Continence::Inside {
-                possible_encroached_vertices.insert(Rc::clone(vertex));
-            }
+fn is_constrained(edge: &Rc<Edge>, segment_contraints: &HashSet<Rc<Edge>>) -> bool {
+    return segment_contraints.contains(edge) || segment_contraints.contains(&edge.opposite());
+}
+
+/**
+ * Evaluates if the segment is encroached by a vertex it sees. The vertices of
+ * a segment it meets at a sharp corner do not count, otherwise both segments
+ * would split each other endlessly.
+ */
+fn is_encroached(
+    triangulation: &Triangulation,
+    segment: &Rc<Edge>,
+    segment_contraints: &HashSet<Rc<Edge>>,
+) -> bool {
+    for edge in vec![Rc::clone(segment), Rc::new(segment.opposite())].iter() {
+        let vertex = match triangulation.adjacency.get(edge) {
+            Some(triangle) if !triangle.is_ghost() => triangle.opposite_vertex(edge).unwrap(),
+            _ => continue,
+        };
+        if segment.encroach(&vertex) == Continence::Inside
+            && !sharp_neighbors(segment, segment_contraints)
+                .iter()
+                .any(|e| is_ahead(e, &vertex))
+        {
+            return true;
         }
-        if !possible_encroached_vertices.is_empty() {
-            encroach_map.insert(Rc::clone(edge), possible_encroached_vertices);
+    }
+    return false;
+} /* end - is_encroached */
+
+/**
+ * Segments that leave an end of the given one at an angle below 60 degrees,
+ * directed from that end.
+ */
+pub fn sharp_neighbors(
+    segment: &Rc<Edge>,
+    segment_contraints: &HashSet<Rc<Edge>>,
+) -> Vec<Rc<Edge>> {
+    let mut neighbors: Vec<Rc<Edge>> = Vec::new();
+    for base in vec![Rc::clone(segment), Rc::new(segment.opposite())].iter() {
+        for constraint in segment_contraints.iter() {
+            let edge = if constraint.v1 == base.v1 {
+                Rc::clone(constraint)
+            } else if constraint.v2 == base.v1 {
+                Rc::new(constraint.opposite())
+            } else {
+                continue;
+            };
+            let cosine = dot(&base.v1, &base.v2, &edge.v1, &edge.v2) / (base.length() * edge.length());
+            let is_overlapped = is_ahead(base, &edge.v2);
+            if !is_overlapped && cosine > 0.5 + 1.0E-9 {
+                neighbors.push(edge);
+            }
         }
     }
+    return neighbors;
+} /* end - sharp neighbors */
+
+/**
+ * Evaluates if the vertex lies on the ray that the edge starts
+ */
+fn is_ahead(edge: &Rc<Edge>, vertex: &Rc<Vertex>) -> bool {
+    return dot(&edge.v1, &edge.v2, &edge.v1, vertex) > 0.0
+        && orientation(&edge.v1, &edge.v2, vertex) == Orientation::Colinear;
 }
 
 /**
@@ -182,30 +187,29 @@ fn split_segment(
     triangulation: &mut Triangulation,
     segment: &Rc<Edge>,
     segment_constraints: &HashSet<Rc<Edge>>,
-    boundary: &Option<Rc<Polyline>>,
-    holes: &HashSet<Rc<Polyline>>,
+    _boundary: &Option<Rc<Polyline>>,
+    _holes: &HashSet<Rc<Polyline>>,
 ) -> (
     Rc<Edge>,
     Rc<Edge>,
     HashSet<Rc<Triangle>>,
     HashSet<Rc<Triangle>>,
 ) {
-    let segment_constraints: HashSet<Rc<Edge>> = segment_constraints
-        .iter()
-        .filter(|&e| e != segment && e != &Rc::new(segment.opposite()))
-        .cloned()
-        .collect();
-
     let segment_midpoint = Rc::new(segment.midpoint());
     let half_1 = Rc::new(Edge::new(&segment.v1, &segment_midpoint));
     let half_2 = Rc::new(Edge::new(&segment_midpoint, &segment.v2));
 
-    let (included_triangles, removed_triangles) = triangulation_procedures::vertices::include(
+    /* The midpoint splits both triangles that share the segment */
+    let split_triangles: Vec<Rc<Triangle>> = vec![Rc::clone(segment), Rc::new(segment.opposite())]
+        .iter()
+        .filter_map(|e| triangulation.adjacency.get(e).cloned())
+        .collect();
+
+    let (included_triangles, removed_triangles) = triangulation_procedures::vertices::include_from(
         triangulation,
-        vec![segment_midpoint],
-        &segment_constraints,
-        boundary,
-        holes,
+        &segment_midpoint,
+        split_triangles,
+        segment_constraints,
     );
     return (half_1, half_2, included_triangles, removed_triangles);
 } /* end - split_segment */
diff --git a/src/planar/refine_procedures/triangle_split.rs b/src/planar/refine_procedures/triangle_split.rs
index ab2a047..975944a 100644
--- a/src/planar/refine_procedures/triangle_split.rs
+++ b/src/planar/refine_procedures/triangle_split.rs
@@ -4,7 +4,7 @@ use crate::planar::{
     triangulation_procedures,
 };
 
-use crate::properties::continence::*;
+use crate::properties::{continence::*, orientation::*};
 
 use std::collections::{HashMap, HashSet};
 use std::rc::Rc;
@@ -79,9 +79,11 @@ pub fn split_irregular(
 
     loop {
         let triangle;
+        let mut is_irregular = false;
         if let Some(irregular_triangle) = irregular_triangles.iter().next() {
             triangle = Rc::clone(&irregular_triangle);
             irregular_triangles.remove(&triangle);
+            is_irregular = true;
         } else if let Some(large_triangle) = large_triangles.iter().next() {
             triangle = Rc::clone(&large_triangle);
             large_triangles.remove(&triangle);
@@ -102,68 +104,58 @@ pub fn split_irregular(
         //     println!("{}", t);
         // }
 
-        match try_circumcenter_insertion(
+        let (included_triangles, removed_triangles) = match try_circumcenter_insertion(
             triangulation,
             &triangle,
             &segment_contraints,
             boundary,
             holes,
         ) {
-            Ok((included_triangles, removed_triangles)) => {
-                for new_triangle in included_triangles.iter().filter(|t| !t.is_ghost()) {
-                    if is_irregular_triangle(new_triangle, params) {
-                        irregular_triangles.insert(Rc::clone(new_triangle));
-                        continue;
-                    }
-                    if is_large_triangle(new_triangle, params) {
-                        large_triangles.insert(Rc::clone(new_triangle));
-                        continue;
-                    }
-                }
-                for old_triangle in removed_triangles.iter() {
-                    irregular_triangles.remove(old_triangle);
-                    large_triangles.remove(old_triangle);
-                }
-            }
+            Ok(modified_triangles) => modified_triangles,
             Err(encroachments) => {
-                let mut vertices = vec![Rc::new(triangle.circumcenter().unwrap())]
+                /*
+                    The segments of a sharp corner are not split on behalf of an
+                    irregular triangle, since the corner would keep an irregular one.
+                */
+                let splittable_edges: Vec<Rc<Edge>> = encroachments
                     .iter()
+                    .filter(|e| {
+                        !is_irregular
+                            || encroachment::sharp_neighbors(e, &segment_contraints).is_empty()
+                    })
                     .cloned()
                     .collect();
 
-                for encroached_edge in encroachments.iter() {
-                    let (new_edges, included_triangles, removed_triangles) =
-                        encroachment::unencroach_segment(
-                            triangulation,
-                            &encroached_edge,
-                            &mut vertices,
-                            &segment_contraints,
-                            boundary,
-                            holes,
-                        );
-
-                    segment_contraints.remove(encroached_edge);
-                    split_map.remove(encroached_edge);
-                    for subsegment in new_edges.iter() {
-                        split_map.insert(Rc::clone(subsegment), Rc::clone(encroached_edge));
-                        segment_contraints.insert(Rc::clone(subsegment));
-                    }
-
-                    for new_triangle in included_triangles.iter().filter(|t| !t.is_ghost()) {
-                        if is_irregular_triangle(new_triangle, params) {
-                            irregular_triangles.insert(Rc::clone(new_triangle));
-                            continue;
-                        }
-                        if is_large_triangle(new_triangle, params) {
-                            large_triangles.insert(Rc::clone(new_triangle));
-                            continue;
-                        }
-                    }
-                    for old_triangle in removed_triangles.iter() {
-                        irregular_triangles.remove(old_triangle);
-                        large_triangles.remove(old_triangle);
-                    }
-                }
+                encroachment::unencroach_segments(
+                    triangulation,
+                    splittable_edges,
+                    &mut segment_contraints,
+                    &mut split_map,
+                    boundary,
+                    holes,
+                )
+            }
+        };
+
+        for old_triangle in removed_triangles.iter() {
+            irregular_triangles.remove(old_triangle);
+            large_triangles.remove(old_triangle);
+        }
+
+        if included_triangles.is_empty() {
+            continue; /* the triangle can not be split */
+        }
+
+        /* After splitting segments, the triangle itself may still have to be split */
+        for new_triangle in included_triangles.iter().chain(vec![&triangle]) {
+            if new_triangle.is_ghost() || !triangulation.triangles.contains(new_triangle) {
+                continue;
+            }
+            if is_irregular_triangle(new_triangle, params) {
+                irregular_triangles.insert(Rc::clone(new_triangle));
+            }
+            if is_large_triangle(new_triangle, params) {
+                large_triangles.insert(Rc::clone(new_triangle));
             }
         }
     }
@@ -172,8 +164,9 @@ pub fn split_irregular(
 
 /**
  * Tries to insert a triangle's circumcenter.
- * If any edge of the triangle is constrained and encroaches the circumcenter,
- * it is returned in the hashset. The circumcenter will be inserted through constrained
+ * The triangle that holds the circumcenter is looked for from the given triangle,
+ * without crossing any constrained segment: if there is one in between, it is
+ * returned in the hashset. The circumcenter will be inserted through constrained
  * insertion. Among the included triangles, if any is composed by a constrained segment
  * that encroaches the circumcenter, the segment is returned in the hashset. If there is
  * no encroachments, the returnable is empty.
@@ -182,29 +175,60 @@ fn try_circumcenter_insertion(
     triangulation: &mut Triangulation,
     triangle: &Rc<Triangle>,
     segment_constraints: &HashSet<Rc<Edge>>,
-    boundary: &Option<Rc<Polyline>>,
-    holes: &HashSet<Rc<Polyline>>,
+    _boundary: &Option<Rc<Polyline>>,
+    _holes: &HashSet<Rc<Polyline>>,
 ) -> Result<(HashSet<Rc<Triangle>>, HashSet<Rc<Triangle>>), HashSet<Rc<Edge>>> {
-    let circumcenter = Rc::new(triangle.circumcenter().unwrap());
-    let mut conflict_map: HashMap<Rc<Triangle>, Vec<Rc<Vertex>>> = HashMap::new();
-
-    triangulation_procedures::vertices::distribute_conflicts_over_triangulation(
-        triangulation,
-        Some(Rc::clone(triangle)),
-        &mut conflict_map,
-        &mut vec![Rc::clone(&circumcenter)],
-        boundary,
-        holes,
-    );
+    let circumcenter = match triangle.circumcenter() {
+        Some(circumcenter) => Rc::new(circumcenter),
+        None => return Ok((HashSet::new(), HashSet::new())),
+    };
+
+    let mut visited_triangles: HashSet<Rc<Triangle>> = HashSet::new();
+    let mut pending_triangles: Vec<Rc<Triangle>> = vec![Rc::clone(triangle)];
+    let mut blocking_edges: HashSet<Rc<Edge>> = HashSet::new();
+    let mut possible_holder: Option<Rc<Triangle>> = None;
+
+    while let Some(next_triangle) = pending_triangles.pop() {
+        if !visited_triangles.insert(Rc::clone(&next_triangle)) {
+            continue;
+        }
+        let (e1, e2, e3) = next_triangle.inner_edges();
+        let facing_edges: Vec<Rc<Edge>> = vec![e1, e2, e3]
+            .iter()
+            .filter(|e| orientation(&e.v1, &e.v2, &circumcenter) == Orientation::Clockwise)
+            .cloned()
+            .collect();
+
+        if facing_edges.is_empty() {
+            possible_holder = Some(next_triangle);
+            break;
+        }
+        for edge in facing_edges.iter() {
+            let outer_edge = Rc::new(edge.opposite());
+            if segment_constraints.contains(edge) {
+                blocking_edges.insert(Rc::clone(edge));
+            } else if segment_constraints.contains(&outer_edge) {
+                blocking_edges.insert(outer_edge);
+            } else if let Some(outer_triangle) = triangulation.adjacency.get(&outer_edge) {
+                if !outer_triangle.is_ghost() {
+                    pending_triangles.push(Rc::clone(outer_triangle));
+                }
+            }
+        }
+    }
+
+    let holder = match possible_holder {
+        Some(holder) => holder,
+        None if blocking_edges.is_empty() => return Ok((HashSet::new(), HashSet::new())),
+        None => return Err(blocking_edges),
+    };
 
     let (included_triangles, removed_triangles) =
-        triangulation_procedures::vertices::solve_conflicts(
+        triangulation_procedures::vertices::include_from(
             triangulation,
-            &mut conflict_map,
-            &mut Vec::new(),
+            &circumcenter,
+            vec![holder],
             segment_constraints,
-            boundary,
-            holes,
         );
 
     let encroachments: HashSet<Rc<Edge>> = included_triangles
diff --git a/src/planar/triangulation_procedures/vertices.rs b/src/planar/triangulation_procedures/vertices.rs
index aac6512..187ddf6 100644
--- a/src/planar/triangulation_procedures/vertices.rs
+++ b/src/planar/triangulation_procedures/vertices.rs
@@ -293,6 +293,72 @@ pub fn distribute_conflicts_over_triangulation(
     }
 }
 
+/**
+ * Inserts a vertex in the cavity that grows from the given triangles, which
+ * hold the vertex. The cavity crosses neither a constrained edge nor the hull
+ * of the triangulation.
+ */
+pub fn include_from(
+    triangulation: &mut Triangulation,
+    vertex: &Rc<Vertex>,
+    initial_triangles: Vec<Rc<Triangle>>,
+    segment_constraints: &HashSet<Rc<Edge>>,
+) -> (HashSet<Rc<Triangle>>, HashSet<Rc<Triangle>>) {
+    let mut included_triangles: HashSet<Rc<Triangle>> = HashSet::new();
+    let mut removed_triangles: HashSet<Rc<Triangle>> = HashSet::new();
+    let mut pending_edges: Vec<Rc<Edge>> = Vec::new();
+
+    for triangle in initial_triangles.iter() {
+        triangulation.remove_triangle(triangle);
+        removed_triangles.insert(Rc::clone(triangle));
+        let (e1, e2, e3) = triangle.inner_edges();
+        pending_edges.append(&mut vec![e1, e2, e3]);
+    }
+
+    /* Edges between two removed triangles do not bound the cavity */
+    let initial_edges: HashSet<Rc<Edge>> = pending_edges.iter().cloned().collect();
+    pending_edges.retain(|e| !initial_edges.contains(&e.opposite()));
+
+    while let Some(edge) = pending_edges.pop() {
+        let outer_edge = Rc::new(edge.opposite());
+        let has_ghost = edge.v1.is_ghost || edge.v2.is_ghost;
+        let is_constrained =
+            segment_constraints.contains(&edge) || segment_constraints.contains(&outer_edge);
+
+        if !has_ghost && !is_constrained {
+            if let Some(outer_triangle) = triangulation.adjacency.get(&outer_edge).cloned() {
+                let is_conflicting = outer_triangle.encircles(vertex) == Continence::Inside
+                    || orientation(&edge.v1, &edge.v2, vertex) != Orientation::Counterclockwise;
+
+                if !outer_triangle.is_ghost() && is_conflicting {
+                    triangulation.remove_triangle(&outer_triangle);
+                    let (e1, e2, e3) = outer_triangle.inner_edges();
+                    pending_edges.extend(
+                        vec![e1, e2, e3].iter().filter(|e| **e != outer_edge).cloned(),
+                    );
+                    removed_triangles.insert(outer_triangle);
+                    continue;
+                }
+            }
+        }
+
+        let new_triangle = if edge.v1.is_ghost {
+            Rc::new(Triangle::new(&edge.v2, vertex, &edge.v1))
+        } else if edge.v2.is_ghost {
+            Rc::new(Triangle::new(vertex, &edge.v1, &edge.v2))
+        } else {
+            Rc::new(Triangle::new(&edge.v1, &edge.v2, vertex))
+        };
+        included_triangles.insert(new_triangle);
+    }
+
+    for triangle in included_triangles.iter() {
+        triangulation.include_triangle(triangle);
+    }
+
+    return (included_triangles, removed_triangles);
+} /* end - include from */
+
 /**
  * Evaluates if triangle is inside boudanry and outside holes
  */
-- 
2.43.0


From f72752b4484c9e306648a2cef3c20ee14606a910 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:57:45 +0000
Subject: [PATCH 07/38] fix: refine the subsegments that a previous refinement
 left

---
 src/planar/triangulator.rs | 36 +++++++++++++++++++++++++++++++++++-
 1 file changed, 35 insertions(+), 1 deletion(-)

diff --git a/src/planar/triangulator.rs b/src/planar/triangulator.rs
index 8962f84..ca9cb6b 100644
--- a/src/planar/triangulator.rs
+++ b/src/planar/triangulator.rs
@@ -1,6 +1,6 @@
 use crate::elements::{edge::*, polyline::*, vertex::*};
 use crate::planar::{refine_params::*, triangulation::*};
-use crate::properties::continence::*;
+use crate::properties::{continence::*, distance::*};
 
 use crate::planar::{refine_procedures, triangulation_procedures};
 
@@ -261,6 +261,8 @@ impl Triangulator {
             .flatten()
             .chain(self.boundary.into_edges())
             .chain(self.segments.iter().cloned())
+            .map(|segment| subsegments(&self.triangulation.borrow(), &segment))
+            .flatten()
             .collect();
 
         let (segments_splitting, included_triangles, removed_triangles) =
@@ -364,6 +366,38 @@ impl Triangulator {
     }
 } /* end - module */
 
+/**
+ * The edges of the triangulation that compose the segment, which may have been
+ * already split by some vertex.
+ */
+fn subsegments(triangulation: &Triangulation, segment: &Rc<Edge>) -> Vec<Rc<Edge>> {
+    if triangulation.adjacency.contains_key(segment)
+        || triangulation.adjacency.contains_key(&segment.opposite())
+    {
+        return vec![Rc::clone(segment)];
+    }
+
+    let mut vertices: Vec<Rc<Vertex>> = triangulation
+        .vertices()
+        .iter()
+        .filter(|&v| v != &segment.v1 && v != &segment.v2 && segment.contains(v))
+        .cloned()
+        .collect();
+
+    vertices.push(Rc::clone(&segment.v1));
+    vertices.push(Rc::clone(&segment.v2));
+    vertices.sort_by(|a, b| {
+        distance(&segment.v1, a)
+            .partial_cmp(&distance(&segment.v1, b))
+            .unwrap()
+    });
+
+    return vertices
+        .windows(2)
+        .map(|pair| Rc::new(Edge::new(&pair[0], &pair[1])))
+        .collect();
+}
+
 #[cfg(test)]
 mod insert_holes {
     use super::*;
-- 
2.43.0


From 53fc27f80f9bb81924ef40bfca6f42b8000d15af Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:00:30 +0000
Subject: [PATCH 08/38] fix: evaluate polylines continence by the pieces of the
 inner one

The edges of the outer polyline were also tested against itself, which is
subject to rounding: vertices, segments and holes well inside the domain were
refused (or silently left out of the triangulation) unless the coordinates were
exactly representable.
---
 src/elements/polyline.rs | 44 ++++++++++++++++++++++++++--------------
 1 file changed, 29 insertions(+), 15 deletions(-)

diff --git a/src/elements/polyline.rs b/src/elements/polyline.rs
index 4592e97..4677b02 100644
--- a/src/elements/polyline.rs
+++ b/src/elements/polyline.rs
@@ -3,6 +3,7 @@ use crate::elements::{bounding_box::*, edge::*, triangle::*, vertex::*};
 use crate::properties::angle::*;
 use crate::properties::area::area_segments;
 use crate::properties::continence::*;
+use crate::properties::distance::*;
 use crate::properties::dot::*;
 use crate::properties::intersection::*;
 use crate::properties::midpoint::*;
@@ -727,21 +728,34 @@ impl Polyline {
             }
         }
 
-        let p1_pairs = vertex_pairs(&p1.vertices, p1.opened);
-        let p2_pairs = vertex_pairs(&p2.vertices, p2.opened);
-
-        let splited_edges = Edge::from_vertex_pairs(split_intersections(
-            &p1_pairs.iter().chain(p2_pairs.iter()).cloned().collect(),
-        ));
-
-        for edge in splited_edges.iter() {
-            let critial_vertex = Rc::new(edge.midpoint());
-            let continence = p1.contains(&critial_vertex).unwrap();
-            if continence == Continence::Boundary {
-                continue;
-            }
-            if Some(continence) != possible_continence {
-                return None;
+        /* p1 may cross an edge of p2 whose critical vertices are single sided */
+        for edge in p2.into_edges().iter() {
+            let mut cuts: Vec<Rc<Vertex>> = vertex_pairs(&p1.vertices, p1.opened)
+                .iter()
+                .filter_map(|(v1, v2)| intersection(v1, v2, &edge.v1, &edge.v2))
+                .map(|vertex| Rc::new(vertex))
+                .collect();
+
+            cuts.push(Rc::clone(&edge.v1));
+            cuts.push(Rc::clone(&edge.v2));
+            cuts.sort_by(|a, b| {
+                distance(&edge.v1, a)
+                    .partial_cmp(&distance(&edge.v1, b))
+                    .unwrap()
+            });
+
+            for piece in cuts.windows(2) {
+                let piece = Edge::new(&piece[0], &piece[1]);
+                if piece.length() <= edge.length() * 1.0E-10 {
+                    continue; /* same vertex */
+                }
+                let continence = p1.contains(&piece.midpoint()).unwrap();
+                if continence == Continence::Boundary {
+                    continue;
+                }
+                if Some(continence) != possible_continence {
+                    return None;
+                }
             }
         }
 
-- 
2.43.0


From ceab2ec98c7de4a829a311002e50a1b26cf00201 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:00:51 +0000
Subject: [PATCH 09/38] fix: evaluate orientation relative to a vertex, within
 rounding tolerance

The determinant of absolute coordinates misjudged nearby vertices far from the
origin, and colinear vertices whose coordinates were rounded: overlapped or
missing triangles, panics.
---
 src/properties/orientation.rs | 22 ++++++++++++++--------
 1 file changed, 14 insertions(+), 8 deletions(-)

diff --git a/src/properties/orientation.rs b/src/properties/orientation.rs
index 37fa199..b92f945 100644
--- a/src/properties/orientation.rs
+++ b/src/properties/orientation.rs
@@ -1,9 +1,4 @@
-#![macro_use]
-extern crate float_cmp;
-extern crate nalgebra;
-
 use crate::elements::vertex::*;
-use nalgebra::Matrix3;
 
 #[derive(PartialEq, Debug)]
 pub enum Orientation {
@@ -17,10 +12,21 @@ pub enum Orientation {
  * in the circumcircle they define.
  */
 pub fn orientation(a: &Vertex, b: &Vertex, c: &Vertex) -> Orientation {
-    let matrix = Matrix3::new(a.x, a.y, 1.0, b.x, b.y, 1.0, c.x, c.y, 1.0);
-    let det: f64 = matrix.determinant();
+    /*
+        Coordinates are taken relative to c. Vertices that were rounded to the
+        nearest coordinates may deviate from the line up to the tolerance.
+    */
+    let (acx, acy) = (a.x - c.x, a.y - c.y);
+    let (bcx, bcy) = (b.x - c.x, b.y - c.y);
+    let det: f64 = acx * bcy - acy * bcx;
+
+    let coordinate = [a.x, a.y, b.x, b.y, c.x, c.y]
+        .iter()
+        .fold(0.0, |max: f64, value| max.max(value.abs()));
+    let length = acx.abs() + acy.abs() + bcx.abs() + bcy.abs();
+    let tolerance = 1.0E-14f64 + 2.0 * std::f64::EPSILON * coordinate * length;
 
-    if float_cmp::approx_eq!(f64, det, 0.0, epsilon = 1.0E-14f64) {
+    if det.abs() <= tolerance {
         return Orientation::Colinear;
     }
 
-- 
2.43.0


From 8bd739507145dc610b1473c0ce0e5d43020a7032 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:31:58 +0000
Subject: [PATCH 10/38] fix: double the rounding tolerance of orientation

---
 src/properties/orientation.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/properties/orientation.rs b/src/properties/orientation.rs
index b92f945..fba50bf 100644
--- a/src/properties/orientation.rs
+++ b/src/properties/orientation.rs
@@ -24,7 +24,7 @@ pub fn orientation(a: &Vertex, b: &Vertex, c: &Vertex) -> Orientation {
         .iter()
         .fold(0.0, |max: f64, value| max.max(value.abs()));
     let length = acx.abs() + acy.abs() + bcx.abs() + bcy.abs();
-    let tolerance = 1.0E-14f64 + 2.0 * std::f64::EPSILON * coordinate * length;
+    let tolerance = 1.0E-14f64 + 4.0 * std::f64::EPSILON * coordinate * length;
 
     if det.abs() <= tolerance {
         return Orientation::Colinear;
-- 
2.43.0


From 1484adde6b0a6888716c3c33fb791f9b8aff5318 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:31:58 +0000
Subject: [PATCH 11/38] fix: evaluate the intersection of segments relative to
 a vertex

---
 src/properties/intersection.rs | 17 +++++++++++------
 1 file changed, 11 insertions(+), 6 deletions(-)

diff --git a/src/properties/intersection.rs b/src/properties/intersection.rs
index 6e1244a..c9072f6 100644
--- a/src/properties/intersection.rs
+++ b/src/properties/intersection.rs
@@ -109,12 +109,17 @@ fn intersection_vertex(
         return None;
     }
 
-    let matrix_a_inv = matrix_a.try_inverse().unwrap();
-
-    let intersection_matrix = matrix_a_inv * matrix_b;
-
-    let intersection_x = intersection_matrix[0];
-    let intersection_y = intersection_matrix[1];
+    /*
+        Coordinates are taken relative to v1, so that the vertex deviates from
+        the lines by no more than the rounding of its own coordinates
+    */
+    let (dx12, dy12) = (x2 - x1, y2 - y1);
+    let (dx34, dy34) = (x4 - x3, y4 - y3);
+    let (dx13, dy13) = (x3 - x1, y3 - y1);
+    let ratio = (dx13 * dy34 - dy13 * dx34) / (dx12 * dy34 - dy12 * dx34);
+
+    let intersection_x = x1 + ratio * dx12;
+    let intersection_y = y1 + ratio * dy12;
 
     return Some(Vertex::new(intersection_x, intersection_y));
 }
-- 
2.43.0


From eea4137bf1bb12b936ffca911cdeaaf103829b28 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:31:58 +0000
Subject: [PATCH 12/38] fix: angle of colinear vertices is never NaN

---
 src/properties/angle.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/properties/angle.rs b/src/properties/angle.rs
index 88a0ee8..fc28072 100644
--- a/src/properties/angle.rs
+++ b/src/properties/angle.rs
@@ -14,7 +14,8 @@ pub fn angle(a: &Vertex, b: &Vertex, c: &Vertex) -> Option<f64> {
     let bc: Vector2<f64> = Vector2::new(c.x - b.x, c.y - b.y);
 
     let cos_theta = ba.dot(&bc) / (ba.norm() * bc.norm());
-    let theta = cos_theta.acos();
+    /* rounding may deviate from the domain of arc cosine */
+    let theta = cos_theta.max(-1.0).min(1.0).acos();
 
     if orientation(a, b, c) == Orientation::Clockwise {
         return Some(2.0 * std::f64::consts::PI - theta);
-- 
2.43.0


From b01f4915fbc4ea205e0ca7eab6a872b73b237f94 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:31:58 +0000
Subject: [PATCH 13/38] fix: polyline operations with touching vertices, shared
 edges or disjoint polylines

---
 src/elements/polyline.rs | 544 ++++++++++++++-------------------------
 1 file changed, 196 insertions(+), 348 deletions(-)

diff --git a/src/elements/polyline.rs b/src/elements/polyline.rs
index 4677b02..935f4e7 100644
--- a/src/elements/polyline.rs
+++ b/src/elements/polyline.rs
@@ -155,6 +155,13 @@ impl Polyline {
         let mut parity: isize = 0;
 
         for (v1, v2) in segments {
+            if dot(&v1, vertex, vertex, &v2) >= 0.0
+                && orientation(&v1, &v2, vertex) == Orientation::Colinear
+            {
+                /* belongs to the segment, within rounding tolerance */
+                return Some(Continence::Boundary);
+            }
+
             let is_vertical_segment = v1.x == v2.x;
             if is_vertical_segment {
                 let points_to_vertex = v1.x == vertex.x;
@@ -215,7 +222,7 @@ impl Polyline {
         let p1_segments = vertex_pairs(&p1.vertices, p1.opened);
         let p2_segments = vertex_pairs(&p2.vertices, p2.opened);
         /* splits segments at the beginning makes it easy to avoid outer boundary  */
-        let mut possible_segments: Vec<(Rc<Vertex>, Rc<Vertex>)> = split_intersections(
+        let possible_segments: Vec<(Rc<Vertex>, Rc<Vertex>)> = split_intersections(
             &p1_segments
                 .iter()
                 .chain(p2_segments.iter())
@@ -236,62 +243,9 @@ impl Polyline {
             /*
                 Removes pairs of colinear segments in opposed direction
             */
+            let (mut possible_segments, opposed_segments) = remove_opposed(&possible_segments);
+            unused_segments.extend(opposed_segments);
             let mut read_segments: Vec<(Rc<Vertex>, Rc<Vertex>)> = Vec::new();
-            read_segments.push(possible_segments.pop().unwrap());
-            while !possible_segments.is_empty() {
-                let (v1, v2) = possible_segments.pop().unwrap();
-                match read_segments.iter().position(|(v3, v4)| {
-                    if !intersection(&v1, &v2, v3, v4).is_none() {
-                        let is_parallel = parallel(&v1, &v2, v3, v4);
-                        let have_opposite_directions = dot(&v1, &v2, v3, v4) < 0.0;
-
-                        let is_polyline_continuation = &v1 == v4 || &v2 == v3;
-                        let is_outside = p1.contains(&v1).unwrap() == Continence::Outside
-                            || p2.contains(&v1).unwrap() == Continence::Outside
-                            || p1.contains(&v2).unwrap() == Continence::Outside
-                            || p2.contains(&v2).unwrap() == Continence::Outside
-                            || p1.contains(&v3).unwrap() == Continence::Outside
-                            || p2.contains(&v3).unwrap() == Continence::Outside
-                            || p1.contains(&v4).unwrap() == Continence::Outside
-                            || p2.contains(&v4).unwrap() == Continence::Outside;
-
-                        return is_parallel
-                            && have_opposite_directions
-                            && (is_polyline_continuation || is_outside);
-                    }
-                    return false;
-                }) {
-                    Some(index) => {
-                        let (v3, v4) = read_segments.remove(index);
-
-                        unused_segments.insert((Rc::clone(&v1), Rc::clone(&v2)));
-                        unused_segments.insert((Rc::clone(&v3), Rc::clone(&v4)));
-                        if v2 != v3
-                            && (v1 == v4
-                                || p1.contains(&v1).unwrap() == Continence::Outside
-                                || p2.contains(&v1).unwrap() == Continence::Outside
-                                || p1.contains(&v4).unwrap() == Continence::Outside
-                                || p2.contains(&v4).unwrap() == Continence::Outside)
-                        {
-                            possible_segments.push((Rc::clone(&v3), Rc::clone(&v2)));
-                        }
-                        if v1 != v4
-                            && (v2 == v3
-                                || p1.contains(&v2).unwrap() == Continence::Outside
-                                || p2.contains(&v2).unwrap() == Continence::Outside
-                                || p1.contains(&v3).unwrap() == Continence::Outside
-                                || p2.contains(&v3).unwrap() == Continence::Outside)
-                        {
-                            possible_segments.push((Rc::clone(&v1), Rc::clone(&v4)));
-                        }
-                    }
-                    None => {
-                        read_segments.push((v1, v2));
-                    }
-                }
-            } /* end - removes pair of intersecting colinear segments in opposed direction */
-            possible_segments = read_segments.iter().cloned().collect();
-            read_segments = Vec::new();
 
             /* Filters by continence */
             while !possible_segments.is_empty() {
@@ -307,78 +261,15 @@ impl Polyline {
                     unused_segments.insert((v1, v2));
                 }
             }
-            let mut possible_segments: HashSet<(Rc<Vertex>, Rc<Vertex>)> =
+            let possible_segments: HashSet<(Rc<Vertex>, Rc<Vertex>)> =
                 read_segments.into_iter().collect();
 
             /* Builds polylines */
-            while !possible_segments.is_empty() {
-                let mut possible_polyline_intersection: Vec<(Rc<Vertex>, Rc<Vertex>)> = Vec::new();
-                let (h1, h2) = possible_segments.iter().next().unwrap();
-                let h1 = Rc::clone(h1);
-                let h2 = Rc::clone(h2);
-                possible_polyline_intersection.push(possible_segments.take(&(h1, h2)).unwrap());
-
-                loop {
-                    let (v1, v2) = possible_polyline_intersection.last().unwrap();
-                    let v1 = Rc::clone(&v1);
-                    let v2 = Rc::clone(&v2);
-
-                    let mut possible_next_segments: Vec<(Rc<Vertex>, Rc<Vertex>)> =
-                        possible_segments
-                            .iter()
-                            .filter(|(v3, v4)| {
-                                /* avoid segments wrong continuation */
-                                if &v1 == v3 || &v1 == v4 || &v2 == v4 {
-                                    return false;
-                                }
-                                /* segments continuation: v1->v2 v3->v4, where v2 === v3 */
-                                return &v2 == v3;
-                            })
-                            .cloned()
-                            .collect();
-
-                    if possible_next_segments.is_empty() {
-                        /* Check polyline closure */
-                        if possible_polyline_intersection.len() > 2 {
-                            let (_, last_v2) = possible_polyline_intersection.last().unwrap();
-                            let (head_v3, _) = possible_polyline_intersection.get(0).unwrap();
-
-                            let last_v2: Rc<Vertex> = Rc::clone(&last_v2);
-                            let head_v3: Rc<Vertex> = Rc::clone(&head_v3);
-
-                            if last_v2 == head_v3 {
-                                let vertices: Vec<Rc<Vertex>> = possible_polyline_intersection
-                                    .iter()
-                                    .map(|(last_v1, _)| Rc::clone(last_v1))
-                                    .collect();
-
-                                polyline_intersection_list
-                                    .push(Self::new_closed(vertices).unwrap());
-                                break;
-                            }
-                        } /* end - if minimal length */
-                        for (v1, v2) in possible_polyline_intersection.iter() {
-                            unused_segments.insert((Rc::clone(&v1), Rc::clone(&v2)));
-                        }
-                        break;
-                    }
-
-                    possible_next_segments.sort_by(|(_, first_v4), (_, second_v4)| {
-                        let first_angle = angle(&v1, &v2, first_v4);
-                        let second_angle = angle(&v1, &v2, second_v4);
-
-                        return first_angle.partial_cmp(&second_angle).unwrap();
-                    });
-
-                    /* Evaluates include new segment by continuation */
-                    let (v3, v4) = possible_segments
-                        .take(possible_next_segments.first().unwrap())
-                        .unwrap();
-                    let v3: Rc<Vertex> = Rc::clone(&v3);
-                    let v4: Rc<Vertex> = Rc::clone(&v4);
-                    possible_polyline_intersection.push((Rc::clone(&v3), Rc::clone(&v4)));
-                } /* end - loop for segments continuation */
-            } /* end - loop */
+            let (loops, open_segments) = closed_loops(possible_segments, false);
+            unused_segments.extend(open_segments);
+            for vertices in loops {
+                polyline_intersection_list.push(Self::new_closed(vertices).unwrap());
+            }
         } /* end - if p1 p2 insersection boundingBox */
         return (polyline_intersection_list, unused_segments);
     }
@@ -406,13 +297,19 @@ impl Polyline {
         /* splits segments at the beginning makes it easy to avoid outer boundary  */
         let p1_segments = vertex_pairs(&p1.vertices, p1.opened);
         let p2_segments = vertex_pairs(&p2.vertices, p2.opened);
-        let mut possible_segments: Vec<(Rc<Vertex>, Rc<Vertex>)> = split_intersections(
+        let possible_segments: Vec<(Rc<Vertex>, Rc<Vertex>)> = split_intersections(
             &p1_segments
                 .iter()
                 .chain(p2_segments.iter())
                 .cloned()
                 .collect(),
         );
+
+        /*
+            Removes pairs of colinear segments in opposed direction
+        */
+        let (mut possible_segments, opposed_segments) = remove_opposed(&possible_segments);
+        unused_segments.extend(opposed_segments);
         let mut read_segments: Vec<(Rc<Vertex>, Rc<Vertex>)> = Vec::new();
 
         /* Filters by continence */
@@ -420,8 +317,12 @@ impl Polyline {
             let (v1, v2) = possible_segments.pop().unwrap();
             let midpoint = midpoint(&v1, &v2);
 
-            let dont_contains_mid = p1.contains(&midpoint).unwrap() == Continence::Outside
-                || p2.contains(&midpoint).unwrap() == Continence::Outside;
+            let p1_continence = p1.contains(&midpoint).unwrap();
+            let p2_continence = p2.contains(&midpoint).unwrap();
+            let dont_contains_mid = p1_continence == Continence::Outside
+                || p2_continence == Continence::Outside
+                || (p1_continence == Continence::Boundary
+                    && p2_continence == Continence::Boundary);
 
             if dont_contains_mid {
                 read_segments.push((v1, v2));
@@ -430,85 +331,36 @@ impl Polyline {
             }
         }
 
-        let mut possible_segments: HashSet<(Rc<Vertex>, Rc<Vertex>)> =
+        let possible_segments: HashSet<(Rc<Vertex>, Rc<Vertex>)> =
             read_segments.iter().cloned().collect();
 
-        while !possible_segments.is_empty() {
-            /* Begins union polyline build */
-            let mut possible_polyline_union: Vec<(Rc<Vertex>, Rc<Vertex>)> = Vec::new();
-            let (h1, h2) = possible_segments.iter().next().unwrap();
-            let h1 = Rc::clone(h1);
-            let h2 = Rc::clone(h2);
-            possible_polyline_union.push(possible_segments.take(&(h1, h2)).unwrap());
-
-            /* includes segments */
-            loop {
-                let (v1, v2) = possible_polyline_union.last().unwrap();
-                let v1 = Rc::clone(&v1);
-                let v2 = Rc::clone(&v2);
-
-                let mut possible_next_segments: Vec<(Rc<Vertex>, Rc<Vertex>)> = possible_segments
-                    .iter()
-                    .filter(|(v3, v4)| {
-                        if &v1 == v3 || &v1 == v4 || &v2 == v4 {
-                            return false;
-                        }
-                        return &v2 == v3;
-                    })
-                    .cloned()
-                    .collect();
-
-                if possible_next_segments.is_empty() {
-                    /* Check polyline closure */
-                    if possible_polyline_union.len() > 2 {
-                        let (_, last_v2) = possible_polyline_union.last().unwrap();
-                        let (head_v3, _) = possible_polyline_union.get(0).unwrap();
-
-                        let last_v2: Rc<Vertex> = Rc::clone(&last_v2);
-                        let head_v3: Rc<Vertex> = Rc::clone(&head_v3);
-
-                        if last_v2 == head_v3
-                            && segments_orientation(&possible_polyline_union)
-                                == Orientation::Counterclockwise
-                        {
-                            let vertices: Vec<Rc<Vertex>> = possible_polyline_union
-                                .iter()
-                                .map(|(v1, _)| Rc::clone(v1))
-                                .collect();
-                            let segments: HashSet<(Rc<Vertex>, Rc<Vertex>)> = possible_segments
-                                .iter()
-                                .chain(unused_segments.iter())
-                                .cloned()
-                                .collect();
-                            return Some((Polyline::new_closed(vertices).unwrap(), segments));
-                        }
-                    } /* end - if polyline closure */
-                    unused_segments = unused_segments
-                        .iter()
-                        .chain(possible_polyline_union.iter())
-                        .cloned()
-                        .collect();
-                    break;
-                } /* no more segments to include */
-
-                possible_next_segments.sort_by(|(_, first_v4), (_, second_v4)| {
-                    let first_angle = angle(&v1, &v2, first_v4);
-                    let second_angle = angle(&v1, &v2, second_v4);
+        /* Builds polylines */
+        let (loops, open_segments) = closed_loops(possible_segments, true);
+        unused_segments.extend(open_segments);
+
+        let mut outer_loops: Vec<Vec<Rc<Vertex>>> = Vec::new();
+        for vertices in loops {
+            let segments = vertex_pairs(&vertices, false);
+            if segments_orientation(&segments) == Orientation::Counterclockwise {
+                outer_loops.push(vertices);
+            } else {
+                /* surrounded by the union */
+                unused_segments.extend(segments);
+            }
+        }
 
-                    return second_angle.partial_cmp(&first_angle).unwrap();
-                });
+        if outer_loops.len() != 1 {
+            /* there is no continuous union */
+            return None;
+        }
 
-                /* Evaluates intersection / continuation and include new segment */
-                let (v3, v4) = possible_segments
-                    .take(possible_next_segments.first().unwrap())
-                    .unwrap();
-                let v3: Rc<Vertex> = Rc::clone(&v3);
-                let v4: Rc<Vertex> = Rc::clone(&v4);
+        let vertices = outer_loops.pop().unwrap();
+        if vertices.iter().collect::<HashSet<&Rc<Vertex>>>().len() < vertices.len() {
+            /* the polylines touch each other by a single vertex */
+            return None;
+        }
 
-                possible_polyline_union.push((Rc::clone(&v3), Rc::clone(&v4)));
-            } /* end - loop for segments continuation */
-        } /* end - while possible segments is not empty */
-        return None;
+        return Some((Polyline::new_closed(vertices).unwrap(), unused_segments));
     }
 
     /**
@@ -523,7 +375,7 @@ impl Polyline {
         let p1_segments = vertex_pairs(&p1.vertices, p1.opened);
         let p2_segments = vertex_pairs(&p2.vertices.iter().cloned().rev().collect(), p2.opened);
         /* splits segments at the beginning makes it easy to avoid outer boundary  */
-        let mut possible_segments: Vec<(Rc<Vertex>, Rc<Vertex>)> = split_intersections(
+        let possible_segments: Vec<(Rc<Vertex>, Rc<Vertex>)> = split_intersections(
             &p1_segments
                 .iter()
                 .chain(p2_segments.iter())
@@ -547,62 +399,9 @@ impl Polyline {
         /*
             Removes pairs of colinear segments in opposed direction
         */
+        let (mut possible_segments, opposed_segments) = remove_opposed(&possible_segments);
+        unused_segments.extend(opposed_segments);
         let mut read_segments: Vec<(Rc<Vertex>, Rc<Vertex>)> = Vec::new();
-        read_segments.push(possible_segments.pop().unwrap());
-        while !possible_segments.is_empty() {
-            let (v1, v2) = possible_segments.pop().unwrap();
-            match read_segments.iter().position(|(v3, v4)| {
-                if intersection(&v1, &v2, v3, v4).is_none() {
-                    return false;
-                }
-                let is_parallel = parallel(&v1, &v2, v3, v4);
-                let have_opposite_directions = dot(&v1, &v2, v3, v4) < 0.0;
-
-                let is_polyline_continuation = &v1 == v4 || &v2 == v3;
-                let is_outside = p1.contains(&v1).unwrap() == Continence::Outside
-                    || p2.contains(&v1).unwrap() == Continence::Outside
-                    || p1.contains(&v2).unwrap() == Continence::Outside
-                    || p2.contains(&v2).unwrap() == Continence::Outside
-                    || p1.contains(&v3).unwrap() == Continence::Outside
-                    || p2.contains(&v3).unwrap() == Continence::Outside
-                    || p1.contains(&v4).unwrap() == Continence::Outside
-                    || p2.contains(&v4).unwrap() == Continence::Outside;
-
-                return is_parallel
-                    && have_opposite_directions
-                    && (is_polyline_continuation || is_outside);
-            }) {
-                Some(index) => {
-                    let (v3, v4) = read_segments.remove(index);
-
-                    unused_segments.insert((Rc::clone(&v1), Rc::clone(&v2)));
-                    unused_segments.insert((Rc::clone(&v3), Rc::clone(&v4)));
-                    if v2 != v3
-                        && (v1 == v4
-                            || p1.contains(&v1).unwrap() == Continence::Outside
-                            || p2.contains(&v1).unwrap() == Continence::Outside
-                            || p1.contains(&v4).unwrap() == Continence::Outside
-                            || p2.contains(&v4).unwrap() == Continence::Outside)
-                    {
-                        possible_segments.push((Rc::clone(&v3), Rc::clone(&v2)));
-                    }
-                    if v1 != v4
-                        && (v2 == v3
-                            || p1.contains(&v2).unwrap() == Continence::Outside
-                            || p2.contains(&v2).unwrap() == Continence::Outside
-                            || p1.contains(&v3).unwrap() == Continence::Outside
-                            || p2.contains(&v3).unwrap() == Continence::Outside)
-                    {
-                        possible_segments.push((Rc::clone(&v1), Rc::clone(&v4)));
-                    }
-                }
-                None => {
-                    read_segments.push((v1, v2));
-                }
-            }
-        } /* end - removes pair of intersecting colinear segments in opposed direction */
-        possible_segments = read_segments.iter().cloned().collect();
-        read_segments = Vec::new();
 
         /* Filters by continence */
         while !possible_segments.is_empty() {
@@ -618,77 +417,15 @@ impl Polyline {
                 unused_segments.insert((v1, v2));
             }
         }
-        let mut possible_segments: HashSet<(Rc<Vertex>, Rc<Vertex>)> =
+        let possible_segments: HashSet<(Rc<Vertex>, Rc<Vertex>)> =
             read_segments.into_iter().collect();
 
         /* Builds polylines */
-        while !possible_segments.is_empty() {
-            let mut possible_polyline_subtraction: Vec<(Rc<Vertex>, Rc<Vertex>)> = Vec::new();
-            let (h1, h2) = possible_segments.iter().next().unwrap();
-            let h1 = Rc::clone(h1);
-            let h2 = Rc::clone(h2);
-            possible_polyline_subtraction.push(possible_segments.take(&(h1, h2)).unwrap());
-
-            loop {
-                let (v1, v2) = possible_polyline_subtraction.last().unwrap();
-                let v1 = Rc::clone(&v1);
-                let v2 = Rc::clone(&v2);
-
-                let mut possible_next_segments: Vec<(Rc<Vertex>, Rc<Vertex>)> = possible_segments
-                    .iter()
-                    .filter(|(v3, v4)| {
-                        /* avoid segments wrong continuation */
-                        if &v1 == v3 || &v1 == v4 || &v2 == v4 {
-                            return false;
-                        }
-                        /* segments continuation: v1->v2 v3->v4, where v2 === v3 */
-                        return &v2 == v3;
-                    })
-                    .cloned()
-                    .collect();
-
-                if possible_next_segments.is_empty() {
-                    /* Check polyline closure */
-                    if possible_polyline_subtraction.len() > 2 {
-                        let (_, last_v2) = possible_polyline_subtraction.last().unwrap();
-                        let (head_v3, _) = possible_polyline_subtraction.get(0).unwrap();
-
-                        let last_v2: Rc<Vertex> = Rc::clone(&last_v2);
-                        let head_v3: Rc<Vertex> = Rc::clone(&head_v3);
-
-                        if last_v2 == head_v3 {
-                            let vertices: Vec<Rc<Vertex>> = possible_polyline_subtraction
-                                .iter()
-                                .map(|(last_v1, _)| Rc::clone(last_v1))
-                                .collect();
-
-                            polyline_intersection_list
-                                .push(Rc::new(Self::new_closed(vertices).unwrap()));
-                            break;
-                        }
-                    } /* end - if minimal length */
-                    for (v1, v2) in possible_polyline_subtraction.iter() {
-                        unused_segments.insert((Rc::clone(&v1), Rc::clone(&v2)));
-                    }
-                    break;
-                }
-
-                possible_next_segments.sort_by(|(_, first_v4), (_, second_v4)| {
-                    let first_angle = angle(&v1, &v2, first_v4);
-                    let second_angle = angle(&v1, &v2, second_v4);
-
-                    return first_angle.partial_cmp(&second_angle).unwrap();
-                });
-
-                /* Evaluates include new segment by continuation */
-                let (v3, v4) = possible_segments
-                    .take(possible_next_segments.first().unwrap())
-                    .unwrap();
-                let v3: Rc<Vertex> = Rc::clone(&v3);
-                let v4: Rc<Vertex> = Rc::clone(&v4);
-                possible_polyline_subtraction.push((Rc::clone(&v3), Rc::clone(&v4)));
-            } /* end - loop for segments continuation */
-        } /* end - loop */
+        let (loops, open_segments) = closed_loops(possible_segments, false);
+        unused_segments.extend(open_segments);
+        for vertices in loops {
+            polyline_intersection_list.push(Rc::new(Self::new_closed(vertices).unwrap()));
+        }
         return (polyline_intersection_list, unused_segments);
     } /* end - subtraction */
 
@@ -736,6 +473,10 @@ impl Polyline {
                 .map(|vertex| Rc::new(vertex))
                 .collect();
 
+            if !cuts.is_empty() {
+                possible_boundary = BoundaryInclusion::Closed;
+            }
+
             cuts.push(Rc::clone(&edge.v1));
             cuts.push(Rc::clone(&edge.v2));
             cuts.sort_by(|a, b| {
@@ -876,30 +617,24 @@ pub fn split_intersections(
 
     while !aux_set.is_empty() {
         let (v1, v2) = aux_set.pop().unwrap();
-        if let Some(index) = splited_segments.iter().position(|(v3, v4)| {
-            if !intersection(&v1, &v2, &v3, &v4).is_none() {
-                return &v1 != v3
-                    && &v1 != v4
-                    && &v2 != v3
-                    && &v2 != v4
-                    && !parallel(&v1, &v2, &v3, &v4);
+        let mut splitting: Option<(usize, Rc<Vertex>)> = None;
+
+        for (index, (v3, v4)) in splited_segments.iter().enumerate() {
+            if let Some(vertex) = splitting_vertex((&v1, &v2), (v3, v4)) {
+                splitting = Some((index, vertex));
+                break;
             }
-            return false;
-        }) {
+        }
+
+        if let Some((index, vertex)) = splitting {
             let (v3, v4) = splited_segments.remove(index);
-            let intersection_vertex = intersection(&v1, &v2, &v3, &v4).unwrap();
-            let intersection_vertex = Rc::new(intersection_vertex);
-            if v3 != intersection_vertex {
-                aux_set.push((Rc::clone(&v3), Rc::clone(&intersection_vertex)));
-            }
-            if v4 != intersection_vertex {
-                aux_set.push((Rc::clone(&intersection_vertex), Rc::clone(&v4)));
-            }
-            if v1 != intersection_vertex {
-                aux_set.push((Rc::clone(&v1), Rc::clone(&intersection_vertex)));
-            }
-            if v2 != intersection_vertex {
-                aux_set.push((Rc::clone(&intersection_vertex), Rc::clone(&v2)));
+            for (head, tail) in [(v3, v4), (v1, v2)].iter() {
+                if head == &vertex || tail == &vertex {
+                    aux_set.push((Rc::clone(head), Rc::clone(tail)));
+                } else {
+                    aux_set.push((Rc::clone(head), Rc::clone(&vertex)));
+                    aux_set.push((Rc::clone(&vertex), Rc::clone(tail)));
+                }
             }
         } else {
             /* no intersection, just segment continuation */
@@ -910,6 +645,119 @@ pub fn split_intersections(
     return splited_segments;
 }
 
+/**
+ * Determines the vertex where at least one of the segments should be split.
+ * Ends of the segments take precedence over the evaluated intersection.
+ */
+fn splitting_vertex(
+    (v1, v2): (&Rc<Vertex>, &Rc<Vertex>),
+    (v3, v4): (&Rc<Vertex>, &Rc<Vertex>),
+) -> Option<Rc<Vertex>> {
+    for vertex in [v3, v4].iter() {
+        if is_between(v1, v2, vertex) {
+            return Some(Rc::clone(vertex));
+        }
+    }
+    for vertex in [v1, v2].iter() {
+        if is_between(v3, v4, vertex) {
+            return Some(Rc::clone(vertex));
+        }
+    }
+
+    let has_common_end = v1 == v3 || v1 == v4 || v2 == v3 || v2 == v4;
+    if has_common_end || parallel(v1, v2, v3, v4) {
+        return None;
+    }
+
+    return intersection(v1, v2, v3, v4)
+        .map(|vertex| Rc::new(vertex))
+        .filter(|vertex| {
+            let is_first_end = v1 == vertex || v2 == vertex;
+            let is_second_end = v3 == vertex || v4 == vertex;
+            return !is_first_end || !is_second_end;
+        });
+}
+
+/**
+ * Checks if vertex belongs to the segment and it is none of its ends
+ */
+fn is_between(v1: &Rc<Vertex>, v2: &Rc<Vertex>, vertex: &Rc<Vertex>) -> bool {
+    return v1 != vertex
+        && v2 != vertex
+        && dot(v1, vertex, vertex, v2) > 0.0
+        && orientation(v1, v2, vertex) == Orientation::Colinear;
+}
+
+/**
+ * Separates the segments from the pairs of segments with the same vertices and
+ * opposed directions.
+ */
+fn remove_opposed(
+    segments: &Vec<(Rc<Vertex>, Rc<Vertex>)>,
+) -> (
+    Vec<(Rc<Vertex>, Rc<Vertex>)>, /* remaining segments */
+    Vec<(Rc<Vertex>, Rc<Vertex>)>, /* opposed segments */
+) {
+    return segments
+        .iter()
+        .cloned()
+        .partition(|(v1, v2)| !segments.iter().any(|(v3, v4)| v1 == v4 && v2 == v3));
+}
+
+/**
+ * Builds closed loops from segments continuation. When a vertex is followed by
+ * many segments, the continuation has either the widest or the narrowest angle.
+ * Returns the loops and the segments that don't belong to any of them.
+ */
+fn closed_loops(
+    mut segments: HashSet<(Rc<Vertex>, Rc<Vertex>)>,
+    widest: bool,
+) -> (Vec<Vec<Rc<Vertex>>>, Vec<(Rc<Vertex>, Rc<Vertex>)>) {
+    let mut loops: Vec<Vec<Rc<Vertex>>> = Vec::new();
+    let mut open_segments: Vec<(Rc<Vertex>, Rc<Vertex>)> = Vec::new();
+
+    while !segments.is_empty() {
+        let head = segments.iter().next().cloned().unwrap();
+        segments.remove(&head);
+        let mut chain: Vec<(Rc<Vertex>, Rc<Vertex>)> = vec![head.clone()];
+
+        loop {
+            let (v1, v2) = chain.last().cloned().unwrap();
+
+            /* segments continuation: v1->v2 v3->v4, where v2 === v3 */
+            let next_segment = segments
+                .iter()
+                .chain(std::iter::once(&head))
+                .filter(|(v3, v4)| &v2 == v3 && &v1 != v4)
+                .min_by(|(_, first_v4), (_, second_v4)| {
+                    let first_angle = angle(&v1, &v2, first_v4);
+                    let second_angle = angle(&v1, &v2, second_v4);
+                    let order = first_angle.partial_cmp(&second_angle).unwrap();
+
+                    return if widest { order.reverse() } else { order };
+                })
+                .cloned();
+
+            match next_segment {
+                Some(segment) if segment == head => {
+                    loops.push(chain.iter().map(|(v1, _)| Rc::clone(v1)).collect());
+                    break;
+                }
+                Some(segment) => {
+                    segments.remove(&segment);
+                    chain.push(segment);
+                }
+                None => {
+                    open_segments.extend(chain);
+                    break;
+                }
+            }
+        } /* end - loop for segments continuation */
+    } /* end - while there are segments */
+
+    return (loops, open_segments);
+}
+
 pub fn segments_orientation(vertex_pairs: &Vec<(Rc<Vertex>, Rc<Vertex>)>) -> Orientation {
     let area = area_segments(vertex_pairs);
     if area < 0.0 {
-- 
2.43.0


From 69a94d9fc0c615dea410b981d4a8dcccd1fb23a5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:32:45 +0000
Subject: [PATCH 14/38] fix: a vertex at the end of a new segment does not
 split it

---
 src/planar/triangulator.rs | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/planar/triangulator.rs b/src/planar/triangulator.rs
index ca9cb6b..4ac8731 100644
--- a/src/planar/triangulator.rs
+++ b/src/planar/triangulator.rs
@@ -155,6 +155,7 @@ impl Triangulator {
                 if &segment.v1 == vertex || &segment.v2 == vertex {
                     /* Ignore vertices if they are an end vertex */
                     self.vertices.remove(vertex);
+                    continue;
                 }
                 if segment.contains(vertex) {
                     /* splits segment if contained */
-- 
2.43.0


From 6e6814e9099af6da4f009218720f09d2cfc6ede3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:32:51 +0000
Subject: [PATCH 15/38] fix: a hole removes the vertices it contains and does
 not enclose another hole

---
 src/planar/triangulator.rs | 11 ++++++++++-
 1 file changed, 10 insertions(+), 1 deletion(-)

diff --git a/src/planar/triangulator.rs b/src/planar/triangulator.rs
index 4ac8731..6096e5d 100644
--- a/src/planar/triangulator.rs
+++ b/src/planar/triangulator.rs
@@ -217,8 +217,10 @@ impl Triangulator {
         for existing_hole in self.holes.iter() {
             let is_hole_outside_existing_hole = Polyline::continence(existing_hole, hole)
                 == Some((Continence::Outside, BoundaryInclusion::Open));
+            let is_existing_hole_outside_hole = Polyline::continence(hole, existing_hole)
+                == Some((Continence::Outside, BoundaryInclusion::Open));
 
-            if !is_hole_outside_existing_hole {
+            if !is_hole_outside_existing_hole || !is_existing_hole_outside_hole {
                 conflicting_vertices = conflicting_vertices
                     .iter()
                     .chain(existing_hole.vertices.iter())
@@ -246,6 +248,13 @@ impl Triangulator {
             return Err(conflicting_vertices);
         }
 
+        self.vertices = self
+            .vertices
+            .iter()
+            .filter(|vertex| hole.contains(vertex) == Some(Continence::Outside))
+            .cloned()
+            .collect();
+
         self.holes.insert(Rc::clone(hole));
         return Ok(self);
     }
-- 
2.43.0


From 296b90ed3f15d208b11cde69b781ea88005cf43f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:32:51 +0000
Subject: [PATCH 16/38] fix: output coordinates follow the order of the
 triangles' indices

---
 src/json_serializar/models/output.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/json_serializar/models/output.rs b/src/json_serializar/models/output.rs
index 17e1a76..5acd2c6 100644
--- a/src/json_serializar/models/output.rs
+++ b/src/json_serializar/models/output.rs
@@ -71,8 +71,8 @@ impl TriangulationOutput {
             id: input.id,
             name: input.name.clone(),
             date: input.date.clone(),
-            coordinates: vertices_map
-                .keys()
+            coordinates: vertices_vec
+                .iter()
                 .map(|v| point::Point::from_vertex(v))
                 .collect(),
             triangles: triangulator
-- 
2.43.0


From 849820f966ef0c18347af6262eb141347466b2fe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:33:47 +0000
Subject: [PATCH 17/38] fix: evaluate the domain regardless of removals order,
 without keeping united holes

---
 .../domain_evaluator.rs                       | 44 ++++++++++++++-----
 1 file changed, 33 insertions(+), 11 deletions(-)

diff --git a/src/triangulator_interface/domain_evaluator.rs b/src/triangulator_interface/domain_evaluator.rs
index 28edcad..1706a76 100644
--- a/src/triangulator_interface/domain_evaluator.rs
+++ b/src/triangulator_interface/domain_evaluator.rs
@@ -40,18 +40,36 @@ pub fn boundary(
         return Err(());
     }
 
-    for possible_removal in removes.iter() {
-        let (subtraction_list, _) = Polyline::subtraction(&boundary, possible_removal);
-        
-        if subtraction_list.len() > 1 {
-            /* divided union in more than 1 */
-            return Err(());
+    let mut possible_removals: Vec<Rc<Polyline>> = removes.iter().cloned().collect();
+    while !possible_removals.is_empty() {
+        let mut did_subtract = false;
+
+        for possible_removal in possible_removals.iter() {
+            let (subtraction_list, _) = Polyline::subtraction(&boundary, possible_removal);
+
+            if subtraction_list.len() > 1 {
+                /* divided union in more than 1 */
+                return Err(());
+            }
+            if subtraction_list.len() == 1 {
+                boundary = Rc::clone(subtraction_list.get(0).unwrap());
+                did_subtract = true;
+                continue;
+            }
+            match Polyline::continence(possible_removal, &boundary) {
+                Some((Continence::Inside, _)) | Some((Continence::Boundary, _)) => {
+                    /* nothing remains from the union */
+                    return Err(());
+                }
+                _ => unused_removals.push(Rc::clone(possible_removal)),
+            }
         }
-        if subtraction_list.len() == 1 {
-            boundary = Rc::clone(subtraction_list.get(0).unwrap());
-            continue;
+
+        possible_removals.clear();
+        if did_subtract {
+            /* the new boundary may intersect the unused removals */
+            possible_removals.append(&mut unused_removals);
         }
-        unused_removals.push(Rc::clone(possible_removal));
     }
 
     return Ok((boundary, unused_removals));
@@ -80,15 +98,19 @@ pub fn holes(boundary: &Rc<Polyline>, removes: &Vec<Rc<Polyline>>) -> HashSet<Rc
             continue;
         }
 
+        let mut is_united = false;
         for existing_hole in holes.iter().cloned() {
             if let Some((union, _)) = Polyline::union(&existing_hole, &possible_removal) {
                 holes.remove(&existing_hole);
                 removes.push(Rc::new(union));
+                is_united = true;
                 break;
             }
         }
 
-        holes.insert(possible_removal);
+        if !is_united {
+            holes.insert(possible_removal);
+        }
     }
 
     return holes;
-- 
2.43.0


From 99e4e43c45cc868f8be04f5926a3fd6c6db72940 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:34:19 +0000
Subject: [PATCH 18/38] fix: accept polylines in clockwise order

---
 .../interpreter/polyline_parser.rs             | 18 +++++++++++++++---
 1 file changed, 15 insertions(+), 3 deletions(-)

diff --git a/src/triangulator_interface/interpreter/polyline_parser.rs b/src/triangulator_interface/interpreter/polyline_parser.rs
index 19783b1..bc7d7c0 100644
--- a/src/triangulator_interface/interpreter/polyline_parser.rs
+++ b/src/triangulator_interface/interpreter/polyline_parser.rs
@@ -1,17 +1,20 @@
 use crate::json_serializar::models::{action::Action, point::Point};
 use std::rc::Rc;
 
-use nlsn_delaunay::elements::{polyline::*, vertex::*};
+use nlsn_delaunay::{
+    elements::{polyline::*, vertex::*},
+    properties::area::*,
+};
 
 pub fn parse(action: &Action) -> Result<Polyline, ()> {
-    let vertices: Vec<Rc<Vertex>> = action
+    let mut vertices: Vec<Rc<Vertex>> = action
         .points
         .iter()
         .map(|p| point_to_vertex(p))
         .map(|v| Rc::new(v))
         .collect();
 
-    if vertices.is_empty() {
+    if vertices.len() < 3 {
         return Err(());
     }
 
@@ -25,6 +28,15 @@ pub fn parse(action: &Action) -> Result<Polyline, ()> {
         return Err(());
     }
 
+    /* the domain is supposed to lie at the left of the polyline */
+    let area = area_segments(&segments);
+    if area == 0.0 {
+        return Err(());
+    }
+    if area > 0.0 {
+        vertices.reverse();
+    }
+
     return Ok(Polyline::new_closed(vertices).unwrap());
 } /* end - parse */
 
-- 
2.43.0


From e4ed3d72eea52d2340d9849639c90417db18bff7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:37:28 +0000
Subject: [PATCH 19/38] fix: a vertex splits every segment that contains it

---
 src/planar/triangulator.rs | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/src/planar/triangulator.rs b/src/planar/triangulator.rs
index 6096e5d..83928d6 100644
--- a/src/planar/triangulator.rs
+++ b/src/planar/triangulator.rs
@@ -77,7 +77,7 @@ impl Triangulator {
                 if &segment.v1 == vertex || &segment.v2 == vertex {
                     /* Ignore vertices if they are and end vertex */
                     should_insert = false;
-                    break;
+                    continue;
                 }
                 if segment.contains(vertex) {
                     /* splits segment if contained */
@@ -87,7 +87,6 @@ impl Triangulator {
                     self.segments
                         .insert(Rc::new(Edge::new(vertex, &segment.v2)));
                     should_insert = false;
-                    break;
                 }
             }
             if should_insert {
-- 
2.43.0


From d67d6f0acee4387b4c080182ebd58d5cb10d8314 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:07:57 +0000
Subject: [PATCH 20/38] fix: segments that meet at one vertex share it

---
 src/elements/polyline.rs | 32 +++++++++++++++++++++++++++++++-
 1 file changed, 31 insertions(+), 1 deletion(-)

diff --git a/src/elements/polyline.rs b/src/elements/polyline.rs
index 935f4e7..556e78b 100644
--- a/src/elements/polyline.rs
+++ b/src/elements/polyline.rs
@@ -626,7 +626,14 @@ pub fn split_intersections(
             }
         }
 
-        if let Some((index, vertex)) = splitting {
+        if let Some((index, intersection)) = splitting {
+            let vertex = existing_vertex(
+                &intersection,
+                [(Rc::clone(&v1), Rc::clone(&v2))]
+                    .iter()
+                    .chain(splited_segments.iter())
+                    .chain(aux_set.iter()),
+            );
             let (v3, v4) = splited_segments.remove(index);
             for (head, tail) in [(v3, v4), (v1, v2)].iter() {
                 if head == &vertex || tail == &vertex {
@@ -645,6 +652,29 @@ pub fn split_intersections(
     return splited_segments;
 }
 
+/**
+ * The end of the segments that is the evaluated intersection but for rounding,
+ * as when more than two segments meet at it. Else, the intersection.
+ */
+fn existing_vertex<'a>(
+    intersection: &Rc<Vertex>,
+    segments: impl Iterator<Item = &'a (Rc<Vertex>, Rc<Vertex>)>,
+) -> Rc<Vertex> {
+    let tolerance = 1.0E-12f64 * intersection.x.abs().max(intersection.y.abs()).max(1.0);
+
+    for (v1, v2) in segments {
+        for vertex in [v1, v2].iter() {
+            if (vertex.x - intersection.x).abs() <= tolerance
+                && (vertex.y - intersection.y).abs() <= tolerance
+            {
+                return Rc::clone(vertex);
+            }
+        }
+    }
+
+    return Rc::clone(intersection);
+}
+
 /**
  * Determines the vertex where at least one of the segments should be split.
  * Ends of the segments take precedence over the evaluated intersection.
-- 
2.43.0


From a352a89fd1d298222ec1160e4fc73331490d1161 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:10:20 +0000
Subject: [PATCH 21/38] fix: an intersection rounded off an axis-parallel
 segment still counts

---
 src/properties/intersection.rs | 14 ++++++++------
 1 file changed, 8 insertions(+), 6 deletions(-)

diff --git a/src/properties/intersection.rs b/src/properties/intersection.rs
index c9072f6..b9688b7 100644
--- a/src/properties/intersection.rs
+++ b/src/properties/intersection.rs
@@ -23,12 +23,14 @@ pub fn intersection(
 ) -> Option<Vertex> {
     if let Some(bbox) = intersection_region(v1, v2, v3, v4) {
         if let Some(vertex) = intersection_vertex(v1, v2, v3, v4, &bbox) {
-            let in_interval_x = (vertex.x >= bbox.origin.x && vertex.x <= bbox.destin.x)
-                || float_cmp::approx_eq!(f64, bbox.origin.x, vertex.x, epsilon = 1.0E-14f64)
-                || float_cmp::approx_eq!(f64, bbox.destin.x, vertex.x, epsilon = 1.0E-14f64);
-            let in_interval_y = (vertex.y >= bbox.origin.y && vertex.y <= bbox.destin.y)
-                || float_cmp::approx_eq!(f64, bbox.origin.y, vertex.y, epsilon = 1.0E-14f64)
-                || float_cmp::approx_eq!(f64, bbox.destin.y, vertex.y, epsilon = 1.0E-14f64);
+            /* The vertex was rounded to the nearest coordinates */
+            let tolerance = [v1, v2, v3, v4].iter().fold(1.0E-14f64, |tolerance, v| {
+                tolerance.max(4.0 * std::f64::EPSILON * v.x.abs().max(v.y.abs()))
+            });
+            let in_interval_x = vertex.x >= bbox.origin.x - tolerance
+                && vertex.x <= bbox.destin.x + tolerance;
+            let in_interval_y = vertex.y >= bbox.origin.y - tolerance
+                && vertex.y <= bbox.destin.y + tolerance;
 
             if in_interval_x && in_interval_y {
                 return Some(vertex);
-- 
2.43.0


From 44be9070bc3ef0344e9323b7cc6881e822bc78d6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:06:06 +0000
Subject: [PATCH 22/38] fix: a vertex rounded off an axis-parallel edge still
 belongs to it

---
 src/elements/edge.rs | 8 +++-----
 1 file changed, 3 insertions(+), 5 deletions(-)

diff --git a/src/elements/edge.rs b/src/elements/edge.rs
index 9fa5282..18de317 100644
--- a/src/elements/edge.rs
+++ b/src/elements/edge.rs
@@ -1,4 +1,4 @@
-use crate::elements::{bounding_box::*, polyline::*, vertex::*};
+use crate::elements::{polyline::*, vertex::*};
 use crate::properties::{
     continence::*, distance::*, dot::*, encroachment::*, intersection::*, orientation::*,
     parallel::*,
@@ -121,10 +121,8 @@ impl Edge {
     }
 
     pub fn contains(&self, vertex: &Vertex) -> bool {
-        let bbox =
-            BoundingBox::from_vertices(vec![Rc::clone(&self.v1), Rc::clone(&self.v2)]).unwrap();
-
-        if !bbox.contains(vertex) {
+        /* A vertex that was rounded may leave the bounding box of an axis-parallel edge */
+        if dot(&self.v1, vertex, vertex, &self.v2) < 0.0 {
             return false;
         }
 
-- 
2.43.0


From 242442c94730bfd98663b347ed5923bc944840d8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:51:34 +0000
Subject: [PATCH 23/38] fix: a vertex in line with an almost vertical side of a
 polyline is not on it

---
 src/elements/polyline.rs | 15 +++++++++++++--
 1 file changed, 13 insertions(+), 2 deletions(-)

diff --git a/src/elements/polyline.rs b/src/elements/polyline.rs
index 556e78b..d0d68c5 100644
--- a/src/elements/polyline.rs
+++ b/src/elements/polyline.rs
@@ -183,10 +183,21 @@ impl Polyline {
                 continue;
             }
 
-            match orientation(&v1, &v2, vertex) {
+            let side = match orientation(&v1, &v2, vertex) {
                 Orientation::Colinear => {
-                    return Some(Continence::Boundary);
+                    /* beyond the ends of an almost vertical segment */
+                    let is_below = v1.y + v2.y > 2.0 * vertex.y;
+                    if is_below == (v1.x < v2.x) {
+                        Orientation::Clockwise
+                    } else {
+                        Orientation::Counterclockwise
+                    }
                 }
+                side => side,
+            };
+
+            match side {
+                Orientation::Colinear => {}
                 Orientation::Counterclockwise => {
                     if v1.x == vertex.x || v2.x == vertex.x {
                         parity = parity + 1;
-- 
2.43.0


From 605c3f9ab088edeb5740d74c6dcc426500682db7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:52:08 +0000
Subject: [PATCH 24/38] fix: vertices differing in the sign of a zero hash
 alike

---
 src/elements/vertex.rs | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/elements/vertex.rs b/src/elements/vertex.rs
index a95cf75..656cfaf 100644
--- a/src/elements/vertex.rs
+++ b/src/elements/vertex.rs
@@ -17,12 +17,13 @@ pub struct Vertex {
 
 impl Hash for Vertex {
     fn hash<H: Hasher>(&self, state: &mut H) {
-        let (m, e, s) = Float::integer_decode(self.x);
+        /* Adding zero turns negative zero, which equals zero, into zero. */
+        let (m, e, s) = Float::integer_decode(self.x + 0.0);
         m.hash(state);
         e.hash(state);
         s.hash(state);
 
-        let (m, e, s) = Float::integer_decode(self.y);
+        let (m, e, s) = Float::integer_decode(self.y + 0.0);
         m.hash(state);
         e.hash(state);
         s.hash(state);
-- 
2.43.0


From 4f1fad182d89ce76a9f8a5314bf37a391c658e63 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:34:14 +0000
Subject: [PATCH 25/38] fix: vertices are sorted by x

---
 src/elements/vertex.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/elements/vertex.rs b/src/elements/vertex.rs
index 656cfaf..620d238 100644
--- a/src/elements/vertex.rs
+++ b/src/elements/vertex.rs
@@ -123,7 +123,7 @@ impl Vertex {
     pub fn sort(vertex_list: &mut Vec<Rc<Vertex>>) {
         vertex_list.sort_by(|v1, v2| match v1.x.partial_cmp(&v2.x) {
             Some(Ordering::Equal) => v1.y.partial_cmp(&v2.y).unwrap(),
-            _ => v1.x.partial_cmp(&v2.y).unwrap(),
+            _ => v1.x.partial_cmp(&v2.x).unwrap(),
         });
     }
 }
-- 
2.43.0


From d6f8fffb862d90fc67357517f2606191c3251a18 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:34:15 +0000
Subject: [PATCH 26/38] fix: only edges that close a single loop are arranged
 into a polyline

---
 src/elements/polyline.rs | 26 +++++++++++++++-----------
 1 file changed, 15 insertions(+), 11 deletions(-)

diff --git a/src/elements/polyline.rs b/src/elements/polyline.rs
index d0d68c5..922104b 100644
--- a/src/elements/polyline.rs
+++ b/src/elements/polyline.rs
@@ -92,24 +92,28 @@ impl Polyline {
             hash_edges.insert(Rc::clone(&edge.v1), Rc::clone(&edge.v2));
         }
 
-        let head: Rc<Vertex> = Rc::clone(hash_edges.keys().next().unwrap());
+        let head: Rc<Vertex> = match hash_edges.keys().next() {
+            Some(vertex) => Rc::clone(vertex),
+            None => return None,
+        };
         let mut tail: Rc<Vertex> = Rc::clone(&head);
         arranged_vertices.push(Rc::clone(&head));
 
-        loop {
-            if let Some(next) = hash_edges.get(&tail) {
-                if next == &head {
-                    break;
+        /* A walk longer than the number of edges never gets back to the head */
+        let mut is_closed = false;
+        while !is_closed && arranged_vertices.len() <= edges.len() {
+            match hash_edges.get(&tail) {
+                Some(next) if next == &head => is_closed = true,
+                Some(next) => {
+                    arranged_vertices.push(Rc::clone(next));
+                    tail = Rc::clone(next);
                 }
-                arranged_vertices.push(Rc::clone(next));
-                tail = Rc::clone(next);
-                continue;
+                None => break,
             }
-            break;
         }
 
-        if arranged_vertices.len() == edges.len() {
-            return Some(Polyline::new_closed(arranged_vertices).unwrap());
+        if is_closed && arranged_vertices.len() == edges.len() {
+            return Polyline::new_closed(arranged_vertices);
         }
 
         return None;
-- 
2.43.0


From d9ca3bbc9d6f3e541084be022d0b6eba7b9d32f3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:34:17 +0000
Subject: [PATCH 27/38] fix: an opened polyline stays opened when minified

---
 src/elements/polyline.rs | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/elements/polyline.rs b/src/elements/polyline.rs
index 922104b..1b504f2 100644
--- a/src/elements/polyline.rs
+++ b/src/elements/polyline.rs
@@ -144,6 +144,7 @@ impl Polyline {
         if self.opened {
             minified.insert(0, Rc::clone(&head));
             minified.push(Rc::clone(&tail));
+            return Polyline::new_opened(minified).unwrap();
         }
 
         return Polyline::new_closed(minified).unwrap();
-- 
2.43.0


From 852a83b6aae0d4393b2573f1951d2b816d000359 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:35:26 +0000
Subject: [PATCH 28/38] fix: an edge rounded off its pieces still decomposes
 into them

---
 src/elements/edge.rs | 21 +++++++--------------
 1 file changed, 7 insertions(+), 14 deletions(-)

diff --git a/src/elements/edge.rs b/src/elements/edge.rs
index 18de317..02f804b 100644
--- a/src/elements/edge.rs
+++ b/src/elements/edge.rs
@@ -1,7 +1,6 @@
 use crate::elements::{polyline::*, vertex::*};
 use crate::properties::{
-    continence::*, distance::*, dot::*, encroachment::*, intersection::*, orientation::*,
-    parallel::*,
+    continence::*, distance::*, dot::*, encroachment::*, orientation::*,
 };
 use std::rc::Rc;
 
@@ -258,18 +257,12 @@ impl Edge {
         let head_tail_mapping: HashMap<Rc<Vertex>, Rc<Vertex>> = base
             .iter()
             .filter(|possible_edge| {
-                let has_intersection =
-                    intersection(&possible_edge.v1, &possible_edge.v2, &edge.v1, &edge.v2)
-                        .is_some();
-
-                if has_intersection {
-                    if parallel(&possible_edge.v1, &possible_edge.v2, &edge.v1, &edge.v2) {
-                        let has_same_orientation =
-                            dot(&possible_edge.v1, &possible_edge.v2, &edge.v1, &edge.v2) > 0.0;
-                        return has_same_orientation;
-                    }
-                }
-                return false;
+                let has_same_orientation =
+                    dot(&possible_edge.v1, &possible_edge.v2, &edge.v1, &edge.v2) > 0.0;
+
+                return has_same_orientation
+                    && edge.contains(&possible_edge.v1)
+                    && edge.contains(&possible_edge.v2);
             })
             .cloned()
             .map(|filtered_edge| (Rc::clone(&filtered_edge.v1), Rc::clone(&filtered_edge.v2)))
-- 
2.43.0


From 8f152986db3ae35ba90297a38ac379fb28d38713 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:35:28 +0000
Subject: [PATCH 29/38] fix: equal triangles hash alike

---
 src/elements/triangle.rs | 13 +++++++++++--
 1 file changed, 11 insertions(+), 2 deletions(-)

diff --git a/src/elements/triangle.rs b/src/elements/triangle.rs
index d30539d..2444ff3 100644
--- a/src/elements/triangle.rs
+++ b/src/elements/triangle.rs
@@ -4,16 +4,25 @@ use crate::properties::{area::*, circumcenter::*, continence::*, distance::*, or
 use std::cmp::Eq;
 use std::fmt;
 use std::fmt::Debug;
-use std::hash::Hash;
+use std::hash::{Hash, Hasher};
 use std::rc::Rc;
 
-#[derive(Hash, Debug)]
+#[derive(Debug)]
 pub struct Triangle {
     pub v1: Rc<Vertex>,
     pub v2: Rc<Vertex>,
     pub v3: Rc<Vertex>,
 }
 
+impl Hash for Triangle {
+    fn hash<H: Hasher>(&self, state: &mut H) {
+        /* Equal triangles may start at different vertices */
+        let mut vertices = [&self.v1, &self.v2, &self.v3];
+        vertices.sort_by(|a, b| a.is_ghost.cmp(&b.is_ghost).then(a.cmp(b)));
+        vertices.hash(state);
+    }
+}
+
 impl PartialEq for Triangle {
     fn eq(&self, other: &Self) -> bool {
         self.v1 == other.v1 && self.v2 == other.v2 && self.v3 == other.v3
-- 
2.43.0


From 66f2d62493004d005bfd40c229f7aca36c372b9a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:19:57 +0000
Subject: [PATCH 30/38] fix: the in-circle test of a small triangle has a small
 tolerance

---
 src/properties/continence.rs | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/properties/continence.rs b/src/properties/continence.rs
index fb47a54..6e8e27f 100644
--- a/src/properties/continence.rs
+++ b/src/properties/continence.rs
@@ -37,7 +37,11 @@ pub fn continence(a: &Vertex, b: &Vertex, c: &Vertex, d: &Vertex) -> Continence
     );
     let det = matrix.determinant();
 
-    if float_cmp::approx_eq!(f64, det, 0.0, epsilon = 1.0E-14f64) {
+    /* The determinant of small triangles is small, whether or not d is inside */
+    let scale = adx.hypot(ady).max(bdx.hypot(bdy)).max(cdx.hypot(cdy)).powi(4);
+    let epsilon = 1.0E-14f64 * scale.min(1.0);
+
+    if float_cmp::approx_eq!(f64, det, 0.0, epsilon = epsilon) {
         return Continence::Boundary;
     }
 
-- 
2.43.0


From a1afc518ffe1bc18b1549c85500e45ca169f39bc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:19:57 +0000
Subject: [PATCH 31/38] fix: orientation and encroachment of near vertices have
 a small tolerance

---
 src/properties/encroachment.rs | 5 ++++-
 src/properties/orientation.rs  | 2 +-
 2 files changed, 5 insertions(+), 2 deletions(-)

diff --git a/src/properties/encroachment.rs b/src/properties/encroachment.rs
index d7ac446..f4edc8d 100644
--- a/src/properties/encroachment.rs
+++ b/src/properties/encroachment.rs
@@ -11,7 +11,10 @@ pub fn encroach(v1: &Vertex, v2: &Vertex, vertex: &Vertex) -> Continence {
 
     let measure = (x - x2) * (x - x1) + (y - y2) * (y - y1);
 
-    if float_cmp::approx_eq!(f64, measure, 0.0, epsilon = 1.0E-14f64) {
+    let square_length = (x2 - x1).powi(2) + (y2 - y1).powi(2);
+    let epsilon = 1.0E-14f64 * square_length.min(1.0);
+
+    if float_cmp::approx_eq!(f64, measure, 0.0, epsilon = epsilon) {
         return Continence::Boundary;
     }
 
diff --git a/src/properties/orientation.rs b/src/properties/orientation.rs
index fba50bf..a68bd9d 100644
--- a/src/properties/orientation.rs
+++ b/src/properties/orientation.rs
@@ -24,7 +24,7 @@ pub fn orientation(a: &Vertex, b: &Vertex, c: &Vertex) -> Orientation {
         .iter()
         .fold(0.0, |max: f64, value| max.max(value.abs()));
     let length = acx.abs() + acy.abs() + bcx.abs() + bcy.abs();
-    let tolerance = 1.0E-14f64 + 4.0 * std::f64::EPSILON * coordinate * length;
+    let tolerance = 1.0E-14f64 * length.powi(2).min(1.0) + 4.0 * std::f64::EPSILON * coordinate * length;
 
     if det.abs() <= tolerance {
         return Orientation::Colinear;
-- 
2.43.0


From 0ae8f50398c175bc52227c8b93c01532173f0c85 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:19:57 +0000
Subject: [PATCH 32/38] fix: circumcenter and area of a triangle are evaluated
 relative to a vertex

---
 src/properties/area.rs         | 16 ++++++----------
 src/properties/circumcenter.rs | 31 +++++++++++++------------------
 2 files changed, 19 insertions(+), 28 deletions(-)

diff --git a/src/properties/area.rs b/src/properties/area.rs
index e15661f..290970e 100644
--- a/src/properties/area.rs
+++ b/src/properties/area.rs
@@ -1,5 +1,4 @@
 use crate::elements::vertex::*;
-use nalgebra::Matrix3;
 use std::rc::Rc;
 
 pub fn area_segments(segments_list: &Vec<(Rc<Vertex>, Rc<Vertex>)>) -> f64 {
@@ -9,17 +8,14 @@ pub fn area_segments(segments_list: &Vec<(Rc<Vertex>, Rc<Vertex>)>) -> f64 {
 }
 
 pub fn area_triangle(v1: &Vertex, v2: &Vertex, v3: &Vertex) -> f64 {
-    let x1 = v1.x;
-    let y1 = v1.y;
+    /* Coordinates are taken relative to v1, to keep the digits of near vertices */
+    let x2 = v2.x - v1.x;
+    let y2 = v2.y - v1.y;
 
-    let x2 = v2.x;
-    let y2 = v2.y;
+    let x3 = v3.x - v1.x;
+    let y3 = v3.y - v1.y;
 
-    let x3 = v3.x;
-    let y3 = v3.y;
-
-    let matrix = Matrix3::new(x1, y1, 1.0, x2, y2, 1.0, x3, y3, 1.0);
-    return matrix.determinant() / 2.0;
+    return (x2 * y3 - y2 * x3) / 2.0;
 }
 
 #[cfg(test)]
diff --git a/src/properties/circumcenter.rs b/src/properties/circumcenter.rs
index 8ab06c4..cecff75 100644
--- a/src/properties/circumcenter.rs
+++ b/src/properties/circumcenter.rs
@@ -3,23 +3,21 @@ use nalgebra::{Matrix2, Matrix2x1};
 
 pub fn circumcenter(v1: &Vertex, v2: &Vertex, v3: &Vertex) -> Option<Vertex> {
     /*
-        Let (x1,y1), (x2,y2), (x3,y3) be the vertices of a triangle.self
-            then (xc,yc) is the circumcenter, if it exists:
+        Let (x1,y1), (x2,y2), (x3,y3) be the vertices of a triangle,
+            then (xc,yc) is the circumcenter, if it exists. Coordinates are taken
+            relative to (x1,y1), to keep the significant digits of near vertices:
 
-        [xc] =  1/2  * [x3^2 - x1^2 + y3^2 - y1^2] * [x3-x1 y3-y1] ^ -1
-        [yc] =         [x2^2 - x1^2 + y2^2 - y1^2] * [x2-x1 y2-y1]
+        [xc] =  [x1] + 1/2  * [x3^2 + y3^2] * [x3 y3] ^ -1
+        [yc] =  [y1]          [x2^2 + y2^2] * [x2 y2]
     */
 
-    let x1 = v1.x;
-    let y1 = v1.y;
+    let x2 = v2.x - v1.x;
+    let y2 = v2.y - v1.y;
 
-    let x2 = v2.x;
-    let y2 = v2.y;
+    let x3 = v3.x - v1.x;
+    let y3 = v3.y - v1.y;
 
-    let x3 = v3.x;
-    let y3 = v3.y;
-
-    let matrix_a = Matrix2::new(x3 - x1, y3 - y1, x2 - x1, y2 - y1);
+    let matrix_a = Matrix2::new(x3, y3, x2, y2);
 
     if !matrix_a.is_invertible() {
         return None;
@@ -27,15 +25,12 @@ pub fn circumcenter(v1: &Vertex, v2: &Vertex, v3: &Vertex) -> Option<Vertex> {
 
     let matrix_a_inv = matrix_a.try_inverse().unwrap();
 
-    let matrix_b = Matrix2x1::new(
-        x3.powi(2) - x1.powi(2) + y3.powi(2) - y1.powi(2),
-        x2.powi(2) - x1.powi(2) + y2.powi(2) - y1.powi(2),
-    );
+    let matrix_b = Matrix2x1::new(x3.powi(2) + y3.powi(2), x2.powi(2) + y2.powi(2));
 
     let center_matrix = 0.5 * matrix_a_inv * matrix_b;
 
-    let xc = center_matrix[0];
-    let yc = center_matrix[1];
+    let xc = v1.x + center_matrix[0];
+    let yc = v1.y + center_matrix[1];
 
     return Some(Vertex::new(xc, yc));
 }
-- 
2.43.0


From 900350894e916ed8ffddda64c74d932444a439be Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:04:53 +0000
Subject: [PATCH 33/38] fix: the irregular triangles of a sharp corner are
 tried again once segments are split

---
 src/planar/refine_procedures/triangle_split.rs | 17 +++++++++++++++++
 1 file changed, 17 insertions(+)

diff --git a/src/planar/refine_procedures/triangle_split.rs b/src/planar/refine_procedures/triangle_split.rs
index 975944a..da72131 100644
--- a/src/planar/refine_procedures/triangle_split.rs
+++ b/src/planar/refine_procedures/triangle_split.rs
@@ -77,6 +77,10 @@ pub fn split_irregular(
 
     let mut split_map: HashMap<Rc<Edge>, Rc<Edge>> = HashMap::new();
 
+    /* Irregular triangles of sharp corners, until some segment is split */
+    let mut postponed_triangles: HashSet<Rc<Triangle>> = HashSet::new();
+    let mut did_split_segment = false;
+
     loop {
         let triangle;
         let mut is_irregular = false;
@@ -87,6 +91,13 @@ pub fn split_irregular(
         } else if let Some(large_triangle) = large_triangles.iter().next() {
             triangle = Rc::clone(&large_triangle);
             large_triangles.remove(&triangle);
+        } else if did_split_segment && !postponed_triangles.is_empty() {
+            did_split_segment = false;
+            irregular_triangles = postponed_triangles
+                .drain()
+                .filter(|t| triangulation.triangles.contains(t))
+                .collect();
+            continue;
         } else {
             break;
         }
@@ -126,6 +137,12 @@ pub fn split_irregular(
                     .cloned()
                     .collect();
 
+                if splittable_edges.is_empty() {
+                    postponed_triangles.insert(Rc::clone(&triangle));
+                } else {
+                    did_split_segment = true;
+                }
+
                 encroachment::unencroach_segments(
                     triangulation,
                     splittable_edges,
-- 
2.43.0


From 6a1b06bc33a57a5e4cc2966ae55b4681c52a285e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:31:13 +0000
Subject: [PATCH 34/38] fix: a circumcenter that a segment hides from its
 triangle is not inserted

---
 .../refine_procedures/triangle_split.rs       | 121 +++++++++++++-----
 1 file changed, 90 insertions(+), 31 deletions(-)

diff --git a/src/planar/refine_procedures/triangle_split.rs b/src/planar/refine_procedures/triangle_split.rs
index da72131..79d89fa 100644
--- a/src/planar/refine_procedures/triangle_split.rs
+++ b/src/planar/refine_procedures/triangle_split.rs
@@ -200,6 +200,65 @@ fn try_circumcenter_insertion(
         None => return Ok((HashSet::new(), HashSet::new())),
     };
 
+    let (possible_holder, blocking_edges) =
+        look_for_holder(triangulation, triangle, &circumcenter, segment_constraints, true);
+
+    let holder = match possible_holder {
+        Some(holder) => holder,
+        None if blocking_edges.is_empty() => return Ok((HashSet::new(), HashSet::new())),
+        None => return Err(blocking_edges),
+    };
+
+    let (included_triangles, removed_triangles) =
+        triangulation_procedures::vertices::include_from(
+            triangulation,
+            &circumcenter,
+            vec![holder],
+            segment_constraints,
+        );
+
+    /* The holder was found around a segment that hides the circumcenter */
+    if !removed_triangles.contains(triangle) {
+        undo_insertion(triangulation, &included_triangles, &removed_triangles);
+        let (_, segments_on_the_way) =
+            look_for_holder(triangulation, triangle, &circumcenter, segment_constraints, false);
+        let blocking_edges: HashSet<Rc<Edge>> = segments_on_the_way
+            .iter()
+            .filter(|e| is_between(e, triangle, &circumcenter))
+            .cloned()
+            .collect();
+        if blocking_edges.is_empty() {
+            return Ok((HashSet::new(), HashSet::new()));
+        }
+        return Err(blocking_edges);
+    }
+
+    let encroachments: HashSet<Rc<Edge>> = included_triangles
+        .iter()
+        .map(|t| t.opposite_edge(&circumcenter).unwrap())
+        .filter(|e| segment_constraints.contains(e) || segment_constraints.contains(&e.opposite()))
+        .filter(|e| e.encroach(&circumcenter) == Continence::Inside)
+        .collect();
+
+    if !encroachments.is_empty() {
+        undo_insertion(triangulation, &included_triangles, &removed_triangles);
+        return Err(encroachments);
+    }
+
+    return Ok((included_triangles, removed_triangles));
+}
+
+/**
+ * Looks for the triangle that holds the vertex, from the given triangle towards
+ * the vertex. Segments on the way are not crossed, but returned.
+ */
+fn look_for_holder(
+    triangulation: &Triangulation,
+    triangle: &Rc<Triangle>,
+    vertex: &Rc<Vertex>,
+    segment_constraints: &HashSet<Rc<Edge>>,
+    stops_at_holder: bool,
+) -> (Option<Rc<Triangle>>, HashSet<Rc<Edge>>) {
     let mut visited_triangles: HashSet<Rc<Triangle>> = HashSet::new();
     let mut pending_triangles: Vec<Rc<Triangle>> = vec![Rc::clone(triangle)];
     let mut blocking_edges: HashSet<Rc<Edge>> = HashSet::new();
@@ -212,13 +271,16 @@ fn try_circumcenter_insertion(
         let (e1, e2, e3) = next_triangle.inner_edges();
         let facing_edges: Vec<Rc<Edge>> = vec![e1, e2, e3]
             .iter()
-            .filter(|e| orientation(&e.v1, &e.v2, &circumcenter) == Orientation::Clockwise)
+            .filter(|e| orientation(&e.v1, &e.v2, vertex) == Orientation::Clockwise)
             .cloned()
             .collect();
 
         if facing_edges.is_empty() {
             possible_holder = Some(next_triangle);
-            break;
+            if stops_at_holder {
+                break;
+            }
+            continue;
         }
         for edge in facing_edges.iter() {
             let outer_edge = Rc::new(edge.opposite());
@@ -234,39 +296,36 @@ fn try_circumcenter_insertion(
         }
     }
 
-    let holder = match possible_holder {
-        Some(holder) => holder,
-        None if blocking_edges.is_empty() => return Ok((HashSet::new(), HashSet::new())),
-        None => return Err(blocking_edges),
-    };
-
-    let (included_triangles, removed_triangles) =
-        triangulation_procedures::vertices::include_from(
-            triangulation,
-            &circumcenter,
-            vec![holder],
-            segment_constraints,
-        );
-
-    let encroachments: HashSet<Rc<Edge>> = included_triangles
-        .iter()
-        .map(|t| t.opposite_edge(&circumcenter).unwrap())
-        .filter(|e| segment_constraints.contains(e) || segment_constraints.contains(&e.opposite()))
-        .filter(|e| e.encroach(&circumcenter) == Continence::Inside)
-        .collect();
+    return (possible_holder, blocking_edges);
+}
 
-    if !encroachments.is_empty() {
-        for t in included_triangles.iter() {
-            triangulation.remove_triangle(t);
-        }
+/**
+ * Evaluates if the edge hides the vertex from the center of the triangle
+ */
+fn is_between(edge: &Rc<Edge>, triangle: &Rc<Triangle>, vertex: &Rc<Vertex>) -> bool {
+    let center = Vertex::new(
+        (triangle.v1.x + triangle.v2.x + triangle.v3.x) / 3.0,
+        (triangle.v1.y + triangle.v2.y + triangle.v3.y) / 3.0,
+    );
+    return orientation(&edge.v1, &edge.v2, &center) != orientation(&edge.v1, &edge.v2, vertex)
+        && orientation(&center, vertex, &edge.v1) != orientation(&center, vertex, &edge.v2);
+}
 
-        for t in removed_triangles.iter() {
-            triangulation.include_triangle(t);
-        }
-        return Err(encroachments);
+/**
+ * Restores the triangles that the insertion of a vertex replaced
+ */
+fn undo_insertion(
+    triangulation: &mut Triangulation,
+    included_triangles: &HashSet<Rc<Triangle>>,
+    removed_triangles: &HashSet<Rc<Triangle>>,
+) {
+    for t in included_triangles.iter() {
+        triangulation.remove_triangle(t);
     }
 
-    return Ok((included_triangles, removed_triangles));
+    for t in removed_triangles.iter() {
+        triangulation.include_triangle(t);
+    }
 }
 
 #[cfg(test)]
-- 
2.43.0


From b7e685865037dc63a97798d994a1c75f1eb7ab41 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:19:00 +0000
Subject: [PATCH 35/38] fix: an edge is decomposed whichever of the pieces that
 start at one vertex comes first

---
 src/elements/edge.rs | 15 +++++++++++++--
 1 file changed, 13 insertions(+), 2 deletions(-)

diff --git a/src/elements/edge.rs b/src/elements/edge.rs
index 02f804b..0724ae3 100644
--- a/src/elements/edge.rs
+++ b/src/elements/edge.rs
@@ -254,7 +254,7 @@ impl Edge {
      * decomposition does not exist.
      */
     pub fn decompose(base: &HashSet<Rc<Edge>>, edge: &Rc<Edge>) -> Option<Vec<Rc<Edge>>> {
-        let head_tail_mapping: HashMap<Rc<Vertex>, Rc<Vertex>> = base
+        let pieces: Vec<Rc<Edge>> = base
             .iter()
             .filter(|possible_edge| {
                 let has_same_orientation =
@@ -265,9 +265,20 @@ impl Edge {
                     && edge.contains(&possible_edge.v2);
             })
             .cloned()
-            .map(|filtered_edge| (Rc::clone(&filtered_edge.v1), Rc::clone(&filtered_edge.v2)))
             .collect();
 
+        /* Several pieces may start at one vertex: keeps one that leads to the tail */
+        let mut head_tail_mapping: HashMap<Rc<Vertex>, Rc<Vertex>> = HashMap::new();
+        let mut pending_tails: Vec<Rc<Vertex>> = vec![Rc::clone(&edge.v2)];
+        while let Some(pending_tail) = pending_tails.pop() {
+            for piece in pieces.iter().filter(|p| p.v2 == pending_tail) {
+                if !head_tail_mapping.contains_key(&piece.v1) {
+                    head_tail_mapping.insert(Rc::clone(&piece.v1), Rc::clone(&piece.v2));
+                    pending_tails.push(Rc::clone(&piece.v1));
+                }
+            }
+        }
+
         let mut arranged_edges: Vec<Rc<Edge>> = Vec::new();
         let head = Rc::clone(&edge.v1);
         let tail = Rc::clone(&edge.v2);
-- 
2.43.0


From 62776f0cd1a71edb8d1b65b5aa5fc59a011b9c06 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:19:00 +0000
Subject: [PATCH 36/38] fix: repeated points of a polyline are dropped, a
 polyline that touches itself at a vertex is refused

---
 .../interpreter/polyline_parser.rs                  | 13 +++++++++++++
 1 file changed, 13 insertions(+)

diff --git a/src/triangulator_interface/interpreter/polyline_parser.rs b/src/triangulator_interface/interpreter/polyline_parser.rs
index bc7d7c0..0e42f0c 100644
--- a/src/triangulator_interface/interpreter/polyline_parser.rs
+++ b/src/triangulator_interface/interpreter/polyline_parser.rs
@@ -1,4 +1,5 @@
 use crate::json_serializar::models::{action::Action, point::Point};
+use std::collections::HashSet;
 use std::rc::Rc;
 
 use nlsn_delaunay::{
@@ -14,6 +15,18 @@ pub fn parse(action: &Action) -> Result<Polyline, ()> {
         .map(|v| Rc::new(v))
         .collect();
 
+    /* points that repeat the one before make no segment */
+    vertices.dedup();
+    if vertices.len() > 1 && vertices.first() == vertices.last() {
+        vertices.pop();
+    }
+
+    let distinct_vertices: HashSet<Rc<Vertex>> = vertices.iter().cloned().collect();
+    if distinct_vertices.len() < vertices.len() {
+        /* polyline touches itself at a vertex */
+        return Err(());
+    }
+
     if vertices.len() < 3 {
         return Err(());
     }
-- 
2.43.0


From d10037f88bebd91f8f08640afe96890449344328 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:19:00 +0000
Subject: [PATCH 37/38] fix: a circle without radius or corners is refused

---
 src/triangulator_interface/interpreter/circle_parser.rs | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/triangulator_interface/interpreter/circle_parser.rs b/src/triangulator_interface/interpreter/circle_parser.rs
index c3c66af..2381641 100644
--- a/src/triangulator_interface/interpreter/circle_parser.rs
+++ b/src/triangulator_interface/interpreter/circle_parser.rs
@@ -16,6 +16,11 @@ pub fn parse(action: &Action) -> Result<Polyline, ()> {
             None => 100,
         };
 
+        if radius == 0.0 || resolution < 3 {
+            /* circle without area */
+            return Err(());
+        }
+
         let dphi = std::f64::consts::PI * 2.0 / resolution as f64;
         for index in 0..resolution {
             let angle: f64 = dphi * index as f64;
-- 
2.43.0


From aa9c2c4c11fe1e8f784e0491e2a1a1a2a05c20b7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:19:00 +0000
Subject: [PATCH 38/38] fix: a quality or area no triangle can meet is refused

---
 src/triangulator_interface/interpreter/mod.rs          |  5 ++++-
 .../interpreter/refine_params_parser.rs                | 10 ++++++++++
 2 files changed, 14 insertions(+), 1 deletion(-)

diff --git a/src/triangulator_interface/interpreter/mod.rs b/src/triangulator_interface/interpreter/mod.rs
index ce7a048..76fe882 100644
--- a/src/triangulator_interface/interpreter/mod.rs
+++ b/src/triangulator_interface/interpreter/mod.rs
@@ -95,7 +95,10 @@ pub fn parse(
         } /* end - match geometry */
     } /* end - for action */
 
-    let refine_params = refine_params_parser::parse(&input.params).unwrap();
+    let refine_params = match refine_params_parser::parse(&input.params) {
+        Ok(refine_params) => refine_params,
+        Err(_) => return Err(()),
+    };
 
     return Ok((
         inclusion_domains,
diff --git a/src/triangulator_interface/interpreter/refine_params_parser.rs b/src/triangulator_interface/interpreter/refine_params_parser.rs
index fdbf357..1f3da39 100644
--- a/src/triangulator_interface/interpreter/refine_params_parser.rs
+++ b/src/triangulator_interface/interpreter/refine_params_parser.rs
@@ -3,6 +3,16 @@ use crate::json_serializar::models::input;
 use nlsn_delaunay::planar::refine_params;
 
 pub fn parse(params: &input::RefineParams) -> Result<refine_params::RefineParams, ()> {
+    /* no triangle is better than the equilateral one, nor has no area */
+    let is_quality_feasible = params.quality >= 1.0 / 3.0_f64.sqrt();
+    let is_area_feasible = match params.max_area {
+        Some(max_area) => max_area > 0.0,
+        None => true,
+    };
+    if !is_quality_feasible || !is_area_feasible {
+        return Err(());
+    }
+
     return Ok(refine_params::RefineParams {
         max_area: params.max_area,
         quality_ratio: params.quality,
-- 
2.43.0

