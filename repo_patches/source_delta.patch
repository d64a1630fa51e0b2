From 8a8f2141b6be97fa15d3415a37f574343e4b7452 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:28:45 +0000
Subject: [PATCH 01/13] fix: Vertex::sort compared x of one vertex with y of
 the other

---
 src/elements/vertex.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/elements/vertex.rs b/src/elements/vertex.rs
index a95cf75..4883dcd 100644
--- a/src/elements/vertex.rs
+++ b/src/elements/vertex.rs
@@ -122,7 +122,7 @@ impl Vertex {
     pub fn sort(vertex_list: &mut Vec<Rc<Vertex>>) {
         vertex_list.sort_by(|v1, v2| match v1.x.partial_cmp(&v2.x) {
             Some(Ordering::Equal) => v1.y.partial_cmp(&v2.y).unwrap(),
-            _ => v1.x.partial_cmp(&v2.y).unwrap(),
+            _ => v1.x.partial_cmp(&v2.x).unwrap(),
         });
     }
 }
-- 
2.43.0


From 12f2960ca2a03cb111161e1ab1342fc5c50529e5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:28:45 +0000
Subject: [PATCH 02/13] fix: equal vertices hashed differently (negative zero,
 ghosts)

---
 src/elements/vertex.rs | 14 ++++++++++----
 1 file changed, 10 insertions(+), 4 deletions(-)

diff --git a/src/elements/vertex.rs b/src/elements/vertex.rs
index 4883dcd..00ee791 100644
--- a/src/elements/vertex.rs
+++ b/src/elements/vertex.rs
@@ -17,17 +17,23 @@ pub struct Vertex {
 
 impl Hash for Vertex {
     fn hash<H: Hasher>(&self, state: &mut H) {
-        let (m, e, s) = Float::integer_decode(self.x);
+        self.is_ghost.hash(state);
+
+        /* all ghosts are equal, whatever their coordinates */
+        if self.is_ghost {
+            return;
+        }
+
+        /* adding zero turns -0.0, which equals 0.0, into 0.0 */
+        let (m, e, s) = Float::integer_decode(self.x + 0.0);
         m.hash(state);
         e.hash(state);
         s.hash(state);
 
-        let (m, e, s) = Float::integer_decode(self.y);
+        let (m, e, s) = Float::integer_decode(self.y + 0.0);
         m.hash(state);
         e.hash(state);
         s.hash(state);
-
-        self.is_ghost.hash(state);
     }
 }
 
-- 
2.43.0


From 59dafad5d9c8d272b1fcbefe42759acf2255dce2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:28:49 +0000
Subject: [PATCH 03/13] fix: triangles equal up to rotation hashed differently

---
 src/elements/triangle.rs | 18 ++++++++++++++++--
 1 file changed, 16 insertions(+), 2 deletions(-)

diff --git a/src/elements/triangle.rs b/src/elements/triangle.rs
index d30539d..4d0eaa1 100644
--- a/src/elements/triangle.rs
+++ b/src/elements/triangle.rs
@@ -2,18 +2,32 @@ use crate::elements::{edge::*, polyline::*, vertex::*};
 use crate::properties::{area::*, circumcenter::*, continence::*, distance::*, orientation::*};
 
 use std::cmp::Eq;
+use std::collections::hash_map::DefaultHasher;
 use std::fmt;
 use std::fmt::Debug;
-use std::hash::Hash;
+use std::hash::{Hash, Hasher};
 use std::rc::Rc;
 
-#[derive(Hash, Debug)]
+#[derive(Debug)]
 pub struct Triangle {
     pub v1: Rc<Vertex>,
     pub v2: Rc<Vertex>,
     pub v3: Rc<Vertex>,
 }
 
+impl Hash for Triangle {
+    fn hash<H: Hasher>(&self, state: &mut H) {
+        /* triangles equal up to rotation of their vertices must hash alike */
+        let mut sum: u64 = 0;
+        for vertex in [&self.v1, &self.v2, &self.v3].iter() {
+            let mut hasher = DefaultHasher::new();
+            vertex.hash(&mut hasher);
+            sum = sum.wrapping_add(hasher.finish());
+        }
+        sum.hash(state);
+    }
+}
+
 impl PartialEq for Triangle {
     fn eq(&self, other: &Self) -> bool {
         self.v1 == other.v1 && self.v2 == other.v2 && self.v3 == other.v3
-- 
2.43.0


From 50deaade71a88eab082876c75b78991dcce92905 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:32:44 +0000
Subject: [PATCH 04/13] fix: a ghost vertex compared equal to a solid vertex in
 the order

---
 src/elements/vertex.rs | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/elements/vertex.rs b/src/elements/vertex.rs
index 00ee791..9f485e6 100644
--- a/src/elements/vertex.rs
+++ b/src/elements/vertex.rs
@@ -57,6 +57,11 @@ impl Ord for Vertex {
             return Ordering::Equal;
         }
 
+        /* a ghost never equals a solid vertex, whatever their coordinates */
+        if self.is_ghost != other.is_ghost {
+            return self.is_ghost.cmp(&other.is_ghost);
+        }
+
         if self.x > other.x {
             return Ordering::Greater;
         } else if self.x < other.x {
-- 
2.43.0


From 2e9cc273ed46caf46a0cc7e3d5f51cc5d26dc0e1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:40:44 +0000
Subject: [PATCH 05/13] fix: minified_noncolinear closed an opened polyline

---
 src/elements/polyline.rs | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/elements/polyline.rs b/src/elements/polyline.rs
index 4592e97..0156a64 100644
--- a/src/elements/polyline.rs
+++ b/src/elements/polyline.rs
@@ -139,6 +139,8 @@ impl Polyline {
         if self.opened {
             minified.insert(0, Rc::clone(&head));
             minified.push(Rc::clone(&tail));
+
+            return Polyline::new_opened(minified).unwrap();
         }
 
         return Polyline::new_closed(minified).unwrap();
-- 
2.43.0


From c56dcb682e7d725141e3c07ef01cb473ddc806ef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:40:59 +0000
Subject: [PATCH 06/13] fix: Polyline::arrange hung, panicked or invented an
 edge when the edges form no single closed line

---
 src/elements/polyline.rs | 13 ++++++++++---
 1 file changed, 10 insertions(+), 3 deletions(-)

diff --git a/src/elements/polyline.rs b/src/elements/polyline.rs
index 0156a64..a65e459 100644
--- a/src/elements/polyline.rs
+++ b/src/elements/polyline.rs
@@ -91,7 +91,10 @@ impl Polyline {
             hash_edges.insert(Rc::clone(&edge.v1), Rc::clone(&edge.v2));
         }
 
-        let head: Rc<Vertex> = Rc::clone(hash_edges.keys().next().unwrap());
+        let head: Rc<Vertex> = match hash_edges.keys().next() {
+            Some(head) => Rc::clone(head),
+            None => return None,
+        };
         let mut tail: Rc<Vertex> = Rc::clone(&head);
         arranged_vertices.push(Rc::clone(&head));
 
@@ -100,15 +103,19 @@ impl Polyline {
                 if next == &head {
                     break;
                 }
+                if arranged_vertices.len() == edges.len() {
+                    /* walks in circles apart from head */
+                    return None;
+                }
                 arranged_vertices.push(Rc::clone(next));
                 tail = Rc::clone(next);
                 continue;
             }
-            break;
+            return None;
         }
 
         if arranged_vertices.len() == edges.len() {
-            return Some(Polyline::new_closed(arranged_vertices).unwrap());
+            return Polyline::new_closed(arranged_vertices);
         }
 
         return None;
-- 
2.43.0


From 0db03c08a9f3870a96acfd8f45e38516dd2c0134 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:02:35 +0000
Subject: [PATCH 07/13] fix: a vertex inside one hole was allowed when another
 hole was looked at later

---
 src/planar/triangulation_procedures/vertices.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/planar/triangulation_procedures/vertices.rs b/src/planar/triangulation_procedures/vertices.rs
index ea0780a..8b0646c 100644
--- a/src/planar/triangulation_procedures/vertices.rs
+++ b/src/planar/triangulation_procedures/vertices.rs
@@ -296,7 +296,7 @@ fn may_insert_triangle(
 
     for hole in holes.iter() {
         if let Some((continence, _)) = Polyline::continence(&hole, &p2) {
-            is_outside_holes = continence != Continence::Inside;
+            is_outside_holes = is_outside_holes && continence != Continence::Inside;
         } else {
             is_outside_holes = false;
         }
-- 
2.43.0


From 195ae40b9472ec97dd0c395f04f8faa9cf31ba6f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:32:47 +0000
Subject: [PATCH 08/13] fix: the end point of an opened line was not inspected
 by continence

---
 src/elements/polyline.rs | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/elements/polyline.rs b/src/elements/polyline.rs
index a65e459..438785c 100644
--- a/src/elements/polyline.rs
+++ b/src/elements/polyline.rs
@@ -719,6 +719,7 @@ impl Polyline {
             .iter()
             .map(|e| vec![Rc::new(e.midpoint()), Rc::clone(&e.v1)])
             .flatten()
+            .chain(p2.tail()) /* the end of an opened line begins no edge */
         {
             let continence = p1.contains(&critial_vertex).unwrap();
             if continence == Continence::Boundary {
-- 
2.43.0


From 9b76944b9034c3c0b146fdb0447b18be5d6c8e37 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:06:12 +0000
Subject: [PATCH 09/13] fix: vertices in conflict only with older triangles
 were lost

---
 .../triangulation_procedures/vertices.rs      | 40 +++++++++++++------
 1 file changed, 27 insertions(+), 13 deletions(-)

diff --git a/src/planar/triangulation_procedures/vertices.rs b/src/planar/triangulation_procedures/vertices.rs
index 8b0646c..058aad6 100644
--- a/src/planar/triangulation_procedures/vertices.rs
+++ b/src/planar/triangulation_procedures/vertices.rs
@@ -22,28 +22,42 @@ pub fn include(
         .cloned()
         .collect();
 
-    let mut conflict_map: HashMap<Rc<Triangle>, Vec<Rc<Vertex>>> = HashMap::new();
-    for possible_triangle in triangulation.triangles.iter() {
-        if vertices.is_empty() {
+    let mut included_triangles: HashSet<Rc<Triangle>> = HashSet::new();
+    let mut removed_triangles: HashSet<Rc<Triangle>> = HashSet::new();
+
+    /* a vertex may end up in conflict with none of the new triangles, but with older ones */
+    loop {
+        let mut conflict_map: HashMap<Rc<Triangle>, Vec<Rc<Vertex>>> = HashMap::new();
+        for possible_triangle in triangulation.triangles.iter() {
+            if vertices.is_empty() {
+                break;
+            }
+            distribute_conflicts(
+                possible_triangle,
+                &mut conflict_map,
+                &mut vertices,
+                boundary,
+                holes,
+            );
+        }
+
+        if conflict_map.is_empty() {
             break;
         }
-        distribute_conflicts(
-            possible_triangle,
+
+        let (new_triangles, old_triangles) = solve_conflicts(
+            triangulation,
             &mut conflict_map,
             &mut vertices,
+            segment_constraints,
             boundary,
             holes,
         );
+        included_triangles.extend(new_triangles);
+        removed_triangles.extend(old_triangles);
     }
 
-    return solve_conflicts(
-        triangulation,
-        &mut conflict_map,
-        &mut vertices,
-        segment_constraints,
-        boundary,
-        holes,
-    );
+    return (included_triangles, removed_triangles);
 } /* end - include vertices method */
 
 /**
-- 
2.43.0


From 4894c49475b26fcc8cae2a43444c5679975443d4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:58:15 +0000
Subject: [PATCH 10/13] fix: triangle indices of the output referred to another
 order of coordinates

---
 src/json_serializar/models/output.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/json_serializar/models/output.rs b/src/json_serializar/models/output.rs
index 17e1a76..5acd2c6 100644
--- a/src/json_serializar/models/output.rs
+++ b/src/json_serializar/models/output.rs
@@ -71,8 +71,8 @@ impl TriangulationOutput {
             id: input.id,
             name: input.name.clone(),
             date: input.date.clone(),
-            coordinates: vertices_map
-                .keys()
+            coordinates: vertices_vec
+                .iter()
                 .map(|v| point::Point::from_vertex(v))
                 .collect(),
             triangles: triangulator
-- 
2.43.0


From 604aab265033fbfa6663ae8b9c703d5c556d9d90 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:58:16 +0000
Subject: [PATCH 11/13] fix: malformed input geometry panicked instead of being
 refused

---
 src/triangulator_interface/interpreter/circle_parser.rs   | 2 +-
 src/triangulator_interface/interpreter/polyline_parser.rs | 3 ++-
 src/triangulator_interface/interpreter/segments_parser.rs | 7 +++++--
 3 files changed, 8 insertions(+), 4 deletions(-)

diff --git a/src/triangulator_interface/interpreter/circle_parser.rs b/src/triangulator_interface/interpreter/circle_parser.rs
index c3c66af..d910baf 100644
--- a/src/triangulator_interface/interpreter/circle_parser.rs
+++ b/src/triangulator_interface/interpreter/circle_parser.rs
@@ -23,7 +23,7 @@ pub fn parse(action: &Action) -> Result<Polyline, ()> {
             vertices.push(Rc::new(vertex));
         }
 
-        return Ok(Polyline::new_closed(vertices).unwrap());
+        return Polyline::new_closed(vertices).ok_or(());
     }
     return Err(());
 }
diff --git a/src/triangulator_interface/interpreter/polyline_parser.rs b/src/triangulator_interface/interpreter/polyline_parser.rs
index 19783b1..940ebeb 100644
--- a/src/triangulator_interface/interpreter/polyline_parser.rs
+++ b/src/triangulator_interface/interpreter/polyline_parser.rs
@@ -11,7 +11,8 @@ pub fn parse(action: &Action) -> Result<Polyline, ()> {
         .map(|v| Rc::new(v))
         .collect();
 
-    if vertices.is_empty() {
+    if vertices.len() < 3 {
+        /* no closed polyline */
         return Err(());
     }
 
diff --git a/src/triangulator_interface/interpreter/segments_parser.rs b/src/triangulator_interface/interpreter/segments_parser.rs
index bd26c42..c98f93f 100644
--- a/src/triangulator_interface/interpreter/segments_parser.rs
+++ b/src/triangulator_interface/interpreter/segments_parser.rs
@@ -16,8 +16,11 @@ pub fn parse(action: &Action) -> Result<HashSet<Rc<Edge>>, ()> {
             let p1_index: usize = *set.get(0).unwrap();
             let p2_index: usize = *set.get(1).unwrap();
 
-            let p1 = action.points.get(p1_index).unwrap();
-            let p2 = action.points.get(p2_index).unwrap();
+            let (p1, p2) = match (action.points.get(p1_index), action.points.get(p2_index)) {
+                (Some(p1), Some(p2)) => (p1, p2),
+                /* no such points => corrupted data */
+                _ => return Err(()),
+            };
 
             let v1 = Rc::new(point_to_vertex(p1));
             let v2 = Rc::new(point_to_vertex(p2));
-- 
2.43.0


From 17a47a3cdbd3ab8d0b7b3df102d4e3338c49b043 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:58:18 +0000
Subject: [PATCH 12/13] fix: vertices inside an inserted hole were kept

---
 src/planar/triangulator.rs | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/planar/triangulator.rs b/src/planar/triangulator.rs
index 8962f84..cc50733 100644
--- a/src/planar/triangulator.rs
+++ b/src/planar/triangulator.rs
@@ -245,6 +245,9 @@ impl Triangulator {
             return Err(conflicting_vertices);
         }
 
+        self.vertices
+            .retain(|vertex| hole.contains(vertex) == Some(Continence::Outside));
+
         self.holes.insert(Rc::clone(hole));
         return Ok(self);
     }
-- 
2.43.0


From 1778831b4cd73608b168c8cceb25db7b183354d3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:58:19 +0000
Subject: [PATCH 13/13] fix: a segment ending in an existing vertex was split
 into itself and a zero-length one

---
 src/planar/triangulator.rs | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/planar/triangulator.rs b/src/planar/triangulator.rs
index cc50733..8da7834 100644
--- a/src/planar/triangulator.rs
+++ b/src/planar/triangulator.rs
@@ -155,6 +155,7 @@ impl Triangulator {
                 if &segment.v1 == vertex || &segment.v2 == vertex {
                     /* Ignore vertices if they are an end vertex */
                     self.vertices.remove(vertex);
+                    continue;
                 }
                 if segment.contains(vertex) {
                     /* splits segment if contained */
-- 
2.43.0

