From 5904e56e99851743a704d2a011faa1931c0b70f5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:50:47 +0000
Subject: [PATCH 01/11] fix: report read errors instead of ignoring them in
 read_boost_input_buffer

A failed read (or a line that isn't valid UTF-8) was silently skipped:
the data read so far was returned as if it was complete, and a reader
with a persistent error was polled forever.
---
 workspace/boostvoronoi_core/src/file_reader.rs | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/workspace/boostvoronoi_core/src/file_reader.rs b/workspace/boostvoronoi_core/src/file_reader.rs
index 4c555cb..01f5352 100644
--- a/workspace/boostvoronoi_core/src/file_reader.rs
+++ b/workspace/boostvoronoi_core/src/file_reader.rs
@@ -123,6 +123,11 @@ pub fn read_boost_input_buffer<I: crate::InputType, F: std::io::Read>(
 
     // Read the file line by line using the lines() iterator from std::io::BufRead.
     for (index, line) in reader.lines().enumerate() {
+        if let Err(e) = line {
+            // Don't mistake a failed read (or a line that isn't UTF-8) for the end of the data,
+            // and don't keep on polling a reader that will never recover.
+            return Err(e.into());
+        }
         if let Ok(line) = line {
             //println!("got {:?}, state:{:?}", line, state);
             if let Some(data) = line_to_data::<I>(&line) {
-- 
2.43.0


From 73a17f783b8b36ec9aa57ff7b8d21abc0b0fa20c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:51:18 +0000
Subject: [PATCH 02/11] fix: don't panic in file_reader when a diagnostic can't
 be printed

---
 workspace/boostvoronoi_core/src/file_reader.rs | 15 +++++++++++++++
 1 file changed, 15 insertions(+)

diff --git a/workspace/boostvoronoi_core/src/file_reader.rs b/workspace/boostvoronoi_core/src/file_reader.rs
index 01f5352..6c6c8ba 100644
--- a/workspace/boostvoronoi_core/src/file_reader.rs
+++ b/workspace/boostvoronoi_core/src/file_reader.rs
@@ -16,6 +16,21 @@ use std::fs::File;
 use std::io::{BufRead, BufReader};
 use std::path::Path;
 
+// The diagnostics are best effort: unlike the std versions of these macros a closed (or full)
+// stdout/stderr should not panic, the outcome of the parsing does not depend on it.
+macro_rules! println {
+    ($($arg:tt)*) => {{
+        use std::io::Write;
+        let _ = writeln!(std::io::stdout(), $($arg)*);
+    }};
+}
+macro_rules! eprintln {
+    ($($arg:tt)*) => {{
+        use std::io::Write;
+        let _ = writeln!(std::io::stderr(), $($arg)*);
+    }};
+}
+
 #[derive(Debug)]
 enum InputData<T: crate::InputType> {
     Number(usize),
-- 
2.43.0


From e8c153b0b25cc3e8151e55b2940a60ad86b7500b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:51:19 +0000
Subject: [PATCH 03/11] fix: don't panic on an unknown edge id in debug builds

The edge id is user supplied: Diagram::clear() makes every id held by the
user stale, and the callers already handle a missing edge.
---
 workspace/boostvoronoi_core/src/diagram.rs | 11 +----------
 1 file changed, 1 insertion(+), 10 deletions(-)

diff --git a/workspace/boostvoronoi_core/src/diagram.rs b/workspace/boostvoronoi_core/src/diagram.rs
index 081fc40..f5ae6dc 100644
--- a/workspace/boostvoronoi_core/src/diagram.rs
+++ b/workspace/boostvoronoi_core/src/diagram.rs
@@ -1084,16 +1084,7 @@ impl<F: OutputType> Diagram<F> {
 
     #[inline]
     pub(crate) fn edge_get_(&self, edge_id: Option<EdgeIndex>) -> Option<&EdgeType> {
-        let rv = self.edges_.get(edge_id?.0);
-        debug_assert!({
-            if rv.is_none() {
-                dbg!(edge_id.unwrap().0);
-                // todo: remove this panic and raise error?
-                panic!();
-            };
-            true
-        });
-        rv
+        self.edges_.get(edge_id?.0)
     }
 
     /// Overwrites the content of dest with the content of source.
-- 
2.43.0


From 6b011eaff83c65e4abf121e5c656c740849e3680 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:52:14 +0000
Subject: [PATCH 04/11] fix: don't use the call stack proportionally to the
 diagram size in color_exterior_edges

Large diagrams (or threads with small stacks) overflowed the stack, and a
color without any storable bits (e.g. 0) recursed forever.
---
 workspace/boostvoronoi_core/src/diagram.rs | 29 ++++++++++++++++------
 1 file changed, 22 insertions(+), 7 deletions(-)

diff --git a/workspace/boostvoronoi_core/src/diagram.rs b/workspace/boostvoronoi_core/src/diagram.rs
index f5ae6dc..88d99ab 100644
--- a/workspace/boostvoronoi_core/src/diagram.rs
+++ b/workspace/boostvoronoi_core/src/diagram.rs
@@ -782,19 +782,34 @@ impl<F: OutputType> Diagram<F> {
     /// Iterates over all edges, colors each edge as exterior if it has an unbroken primary edge
     /// link connection to an infinite edge.
     pub fn color_exterior_edges(&self, external_color: ColorType) {
+        if external_color << ColorBits::RESERVED_BITS__SHIFT.0 == 0 {
+            // There is nothing to store: the edges would never be recognized as colored.
+            return;
+        }
+        let mut pending = Vec::<EdgeIndex>::new();
         for it in self.edges().iter() {
             let edge_id = Some(it.get().id());
             if !self.edge_is_finite_(edge_id).unwrap() {
-                self.recurse_color_exterior(edge_id, external_color);
+                self.color_exterior_(edge_id, external_color, &mut pending);
+                while let Some(edge_id) = pending.pop() {
+                    self.color_exterior_(Some(edge_id), external_color, &mut pending);
+                }
             }
         }
     }
 
     /// Mark all edges connected to an 'infinite' edge via primary edges as 'external'
     /// You should only call this on edges that you know are infinite. i.e. lacks one or two vertexes
-    fn recurse_color_exterior(&self, edge_id: Option<EdgeIndex>, external_color: ColorType) {
+    /// The edges left to visit are put in 'pending': recursing into them would use an amount of
+    /// call stack proportional to the size of the diagram.
+    fn color_exterior_(
+        &self,
+        edge_id: Option<EdgeIndex>,
+        external_color: ColorType,
+        pending: &mut Vec<EdgeIndex>,
+    ) {
         if edge_id.is_none() || (self.edge_get_color_(edge_id).unwrap() & external_color) != 0 {
-            // This edge has already been colored, break recursion
+            // This edge has already been colored
             return;
         }
         // Color edge as EXTERNAL
@@ -802,7 +817,7 @@ impl<F: OutputType> Diagram<F> {
 
         let v1 = self.edge_get_vertex1_(edge_id);
         if self.edge_get_vertex0_(edge_id).is_some() && v1.is_none() {
-            // this edge leads to nowhere, break recursion
+            // this edge leads to nowhere
             return;
         }
         // Color twin edge as EXTERNAL
@@ -813,15 +828,15 @@ impl<F: OutputType> Diagram<F> {
                 .get_edge_(edge_id)
                 .map_or(false, |x| x.get().is_primary())
         {
-            // stop recursion if this edge does not have a vertex1 (e.g is infinite)
+            // stop here if this edge does not have a vertex1 (e.g is infinite)
             // or if this edge isn't a primary edge.
             return;
         }
         self.vertex_set_color_(v1, external_color);
         let incident_edge = self.vertex_get_incident_edge(v1);
         for e in self.edge_rot_next_iterator(incident_edge) {
-            // mark all surrounding edges as EXTERNAL, but only recurse on primary edges
-            self.recurse_color_exterior(Some(e), external_color);
+            // mark all surrounding edges as EXTERNAL, but only continue on primary edges
+            pending.push(e);
         }
     }
 
-- 
2.43.0


From 40aaf720ede2f28ac057d77b931347922343ddf8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:52:14 +0000
Subject: [PATCH 05/11] fix: bound the SyncDiagram rotation iterator by the
 number of edges

SyncDiagrams can be created from anything (serde, SyncDiagram::new()), a
cycle that never returns to the starting edge was iterated forever.
---
 workspace/boostvoronoi_core/src/sync_diagram.rs | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/workspace/boostvoronoi_core/src/sync_diagram.rs b/workspace/boostvoronoi_core/src/sync_diagram.rs
index f725868..de69798 100644
--- a/workspace/boostvoronoi_core/src/sync_diagram.rs
+++ b/workspace/boostvoronoi_core/src/sync_diagram.rs
@@ -188,6 +188,9 @@ pub struct EdgeRotNextIterator<'s, F: OutputType> {
     diagram_: &'s SyncDiagram<F>,
     starting_edge_: VD::EdgeIndex,
     next_edge_: Option<VD::EdgeIndex>,
+    // A diagram can come from anywhere, e.g. it can be the result of deserializing damaged data.
+    // No vertex has more outgoing edges than this.
+    remaining_: usize,
 }
 
 impl<'s, F: OutputType> EdgeRotNextIterator<'s, F> {
@@ -196,6 +199,7 @@ impl<'s, F: OutputType> EdgeRotNextIterator<'s, F> {
             diagram_: diagram,
             starting_edge_: starting_edge,
             next_edge_: Some(starting_edge),
+            remaining_: diagram.edges_.len(),
         }
     }
 }
@@ -204,9 +208,10 @@ impl<'s, F: OutputType> Iterator for EdgeRotNextIterator<'s, F> {
     type Item = VD::EdgeIndex;
     fn next(&mut self) -> Option<VD::EdgeIndex> {
         let rv = self.next_edge_;
+        self.remaining_ = self.remaining_.saturating_sub(1);
         let new_next_edge = self.diagram_.edge_rot_next_no_err(self.next_edge_);
         self.next_edge_ = if let Some(nne) = new_next_edge {
-            if nne.0 == self.starting_edge_.0 {
+            if nne.0 == self.starting_edge_.0 || self.remaining_ == 0 {
                 // Break the loop when we see the starting edge again
                 None
             } else {
-- 
2.43.0


From d479899079f9804e1536be4c9f69ac991e54d401 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:52:39 +0000
Subject: [PATCH 06/11] fix: scale the tolerance of the point,point,segment
 circle center to its actual error

The circle center is computed with an error of up to 64 ULPS, but its
projection on the segment was only accepted with a 4 ULPS tolerance. Valid
circle events at the end of a segment were dropped, and the resulting half-
edge structure was corrupt: e.g. vertices (-6,0) (0,-8) segment (-8,-3,-8,-4)
had edges without any next edge.
---
 .../src/predicate/lazy_circle_formation.rs        | 15 ++++++++++++---
 1 file changed, 12 insertions(+), 3 deletions(-)

diff --git a/workspace/boostvoronoi_core/src/predicate/lazy_circle_formation.rs b/workspace/boostvoronoi_core/src/predicate/lazy_circle_formation.rs
index d616568..9f29afa 100644
--- a/workspace/boostvoronoi_core/src/predicate/lazy_circle_formation.rs
+++ b/workspace/boostvoronoi_core/src/predicate/lazy_circle_formation.rs
@@ -265,9 +265,18 @@ pub(crate) fn pps<I: InputType, F: OutputType>(
         let dot = (v_3_c.0 * v_3.0 + v_3_c.1 * v_3.1) / (v_3.0 * v_3.0 + v_3.1 * v_3.1);
         tln!("pps dot:{:.12}", dot);
 
-        // allow the dot to be [0..1] + some ULP fuzz
-        let rv =
-            (-0.0..=1.0).contains(&dot) || approx::ulps_eq!(0.0, dot) || approx::ulps_eq!(1.0, dot);
+        // Allow the dot to be [0..1] + the rounding error of the circle center. The center is
+        // only accurate to ULPSX2, so that error must be scaled to the length of the segment.
+        let magnitude = [
+            c_event.x(),
+            c_event.y(),
+            cast::<I, f64>(site3.point0().x),
+            cast::<I, f64>(site3.point0().y),
+        ]
+        .iter()
+        .fold(0_f64, |acc, v| acc.max(v.abs()));
+        let fuzz = ulps * f64::EPSILON * (1_f64 + magnitude / v_3.0.hypot(v_3.1));
+        let rv = (-fuzz..=1.0 + fuzz).contains(&dot);
 
         #[cfg(feature = "ce_corruption_check")]
         if !rv {
-- 
2.43.0


From 9bc6ca3a3e4abf2765bd22642123a945290d289f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:02:37 +0000
Subject: [PATCH 07/11] fix: report an unknown edge id in
 edge_is_finite/edge_is_infinite

edge_is_finite() and edge_is_infinite() answered Ok(false) and Ok(true) for ids that don't exist
(the intended 'doesn't exists' error was unreachable), sync_diagram reports an error.
---
 workspace/boostvoronoi_core/src/diagram.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/workspace/boostvoronoi_core/src/diagram.rs b/workspace/boostvoronoi_core/src/diagram.rs
index 88d99ab..1c0fdae 100644
--- a/workspace/boostvoronoi_core/src/diagram.rs
+++ b/workspace/boostvoronoi_core/src/diagram.rs
@@ -1253,7 +1253,7 @@ impl<F: OutputType> Diagram<F> {
     /// Returns false if the edge is infinite (ray, line).
     #[inline]
     pub(crate) fn edge_is_finite_(&self, edge_id: Option<EdgeIndex>) -> Option<bool> {
-        let _ = edge_id?;
+        let _ = self.edge_get_(edge_id)?;
         Some(self.edge_get_vertex0_(edge_id).is_some() && self.edge_get_vertex1_(edge_id).is_some())
     }
 
-- 
2.43.0


From 0b855f6d98909970e4d468b4349e7c97af265386 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:04:04 +0000
Subject: [PATCH 08/11] fix: ignore point,point,segment circles that touch the
 last site first

The existence predicate accepts either orientation of the segment's end
points, so a circle of (segment,point,point) sites was taken for a circle
event although the arc between them doesn't vanish there. Whichever of the
two events of the same circle happened to be handled first decided, and the
wrong point lost its cell: e.g. vertices (0,0) (41,38) (62,52) segment
(76,63,0,0) had a vertex at (-141.08,324.87) inside the cell of (41,38).
---
 .../src/predicate/lazy_circle_formation.rs    | 51 ++++++++++++++++++-
 1 file changed, 50 insertions(+), 1 deletion(-)

diff --git a/workspace/boostvoronoi_core/src/predicate/lazy_circle_formation.rs b/workspace/boostvoronoi_core/src/predicate/lazy_circle_formation.rs
index 9f29afa..128983d 100644
--- a/workspace/boostvoronoi_core/src/predicate/lazy_circle_formation.rs
+++ b/workspace/boostvoronoi_core/src/predicate/lazy_circle_formation.rs
@@ -276,7 +276,8 @@ pub(crate) fn pps<I: InputType, F: OutputType>(
         .iter()
         .fold(0_f64, |acc, v| acc.max(v.abs()));
         let fuzz = ulps * f64::EPSILON * (1_f64 + magnitude / v_3.0.hypot(v_3.1));
-        let rv = (-fuzz..=1.0 + fuzz).contains(&dot);
+        let rv = (-fuzz..=1.0 + fuzz).contains(&dot)
+            && touches_in_order::<I, F>(point1, point2, site3, segment_index, &c_event);
 
         #[cfg(feature = "ce_corruption_check")]
         if !rv {
@@ -320,6 +321,54 @@ pub(crate) fn pps<I: InputType, F: OutputType>(
     Some(c_event)
 }
 
+/// Checks that a point, point, segment circle touches its first site before its last one, going
+/// clockwise and starting in the sweep direction. The existence predicate accepts either
+/// orientation of the segment end points, but if the last site comes first it is not the middle
+/// arc of the beach line that vanishes at this circle event.
+fn touches_in_order<I: InputType, F: OutputType>(
+    point1: Point<I>,
+    point2: Point<I>,
+    site3: &VSE::SiteEvent<I, F>,
+    segment_index: SiteIndex,
+    c_event: &CircleEvent,
+) -> bool {
+    // The directions from the circle center to where the sites are touched.
+    let to_point = |p: Point<I>| {
+        (
+            cast::<I, f64>(p.x) - c_event.x(),
+            cast::<I, f64>(p.y) - c_event.y(),
+        )
+    };
+    let normal = (
+        cast::<I, f64>(site3.y1()) - cast::<I, f64>(site3.y0()),
+        cast::<I, f64>(site3.x0()) - cast::<I, f64>(site3.x1()),
+    );
+    let start = to_point(site3.point0());
+    let to_segment = if normal.0 * start.0 + normal.1 * start.1 < 0.0 {
+        (-normal.0, -normal.1)
+    } else {
+        normal
+    };
+    let (first, last) = match segment_index {
+        SiteIndex::One => (to_segment, to_point(point2)),
+        SiteIndex::Two => return true,
+        SiteIndex::Three => (to_point(point1), to_segment),
+    };
+    // A site that is touched right ahead of the center may be the first as well as the last one.
+    let magnitude = c_event.x().abs().max(c_event.y().abs());
+    let is_ahead = |t: (f64, f64)| {
+        t.0 > 0.0 && t.1.abs() <= ULPSX2 as f64 * f64::EPSILON * (magnitude + t.0)
+    };
+    if is_ahead(first) || is_ahead(last) {
+        return true;
+    }
+    match (first.1 > 0.0, last.1 > 0.0) {
+        (false, true) => true,
+        (true, false) => false,
+        _ => first.0 * last.1 - first.1 * last.0 <= 0.0,
+    }
+}
+
 /// Lazy evaluation of point, segment, segment circle events
 #[allow(unused_parens)]
 pub(crate) fn pss<I: InputType, F: OutputType>(
-- 
2.43.0


From c00d88893bc75b00f3ac4d34fec690c8a2e80167 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:23:38 +0000
Subject: [PATCH 09/11] fix: compute the cross product of 32 bit coordinate
 differences in 128 bits

---
 workspace/boostvoronoi_core/src/predicate.rs | 32 ++------------------
 1 file changed, 3 insertions(+), 29 deletions(-)

diff --git a/workspace/boostvoronoi_core/src/predicate.rs b/workspace/boostvoronoi_core/src/predicate.rs
index e260225..1e5b7c3 100644
--- a/workspace/boostvoronoi_core/src/predicate.rs
+++ b/workspace/boostvoronoi_core/src/predicate.rs
@@ -56,35 +56,9 @@ pub(crate) fn is_vertical<I: InputType>(point1: Point<I>, point2: Point<I>) -> b
 /// with epsilon relative error equal to 1EPS.
 #[inline]
 fn robust_cross_product<I: InputType, F: OutputType>(s_a1: I, s_b1: I, s_a2: I, s_b2: I) -> F {
-    // Why can't *all* integers implement is_negative()? E.g u64 would just always return false.
-    // It would make it easier to implement generic code
-    let u_a1 = if s_a1 < I::zero() { -s_a1 } else { s_a1 };
-    let u_b1 = if s_b1 < I::zero() { -s_b1 } else { s_b1 };
-    let u_a2 = if s_a2 < I::zero() { -s_a2 } else { s_a2 };
-    let u_b2 = if s_b2 < I::zero() { -s_b2 } else { s_b2 };
-
-    let l = u_a1 * u_b2;
-    let r = u_b1 * u_a2;
-
-    if (s_a1 < I::zero()) ^ (s_b2 < I::zero()) {
-        return if (s_a2 < I::zero()) ^ (s_b1 < I::zero()) {
-            if l > r {
-                -cast::<I, F>(l - r)
-            } else {
-                cast::<I, F>(r - l)
-            }
-        } else {
-            -cast::<I, F>(l + r)
-        };
-    }
-    if (s_a2 < I::zero()) ^ (s_b1 < I::zero()) {
-        return cast::<I, F>(l + r);
-    }
-    if l < r {
-        -cast::<I, F>(r - l)
-    } else {
-        cast::<I, F>(l - r)
-    }
+    // The products of differences between 32 bit coordinates don't fit into 64 bits.
+    let [a1, b1, a2, b2] = [s_a1, s_b1, s_a2, s_b2].map(cast::<I, i128>);
+    cast::<i128, F>(a1 * b2 - b1 * a2)
 }
 
 pub(crate) mod orientation_predicate {
-- 
2.43.0


From d8326a458200fbd4ca74c64a12f3f1fc964085d6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:43:32 +0000
Subject: [PATCH 10/11] fix: discretize left the curve, or lost its start, for
 arcs too short for the precision

---
 workspace/boostvoronoi_core/src/visual_utils.rs | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/workspace/boostvoronoi_core/src/visual_utils.rs b/workspace/boostvoronoi_core/src/visual_utils.rs
index 69cd74b..42c0c7e 100644
--- a/workspace/boostvoronoi_core/src/visual_utils.rs
+++ b/workspace/boostvoronoi_core/src/visual_utils.rs
@@ -105,10 +105,10 @@ impl VoronoiVisualUtils {
                 dist = dist * dist
                     / ((new_y - cur_y) * (new_y - cur_y) + (new_x - cur_x) * (new_x - cur_x));
             }
-            if dist.is_nan() {
-                break;
-            }
-            if dist <= max_dist_transformed {
+            // The furthest point lies between the two points, unless they are too close to each other
+            // for the precision of the coordinates.
+            let is_between = mid_x > cur_x.min(new_x) && mid_x < cur_x.max(new_x);
+            if !is_between || dist.is_nan() || dist <= max_dist_transformed {
                 // Distance between parabola and line segment is less than max_dist.
                 let _ = point_stack.pop();
                 let inter_x = (segm_vec_x * new_x - segm_vec_y * new_y) / sqr_segment_length
-- 
2.43.0


From 8dbc7cf557fc12d87b46b910e84dca5bb2646e87 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:44:14 +0000
Subject: [PATCH 11/11] fix: discretize squared distances beyond the range of
 f32

---
 workspace/boostvoronoi_core/src/visual_utils.rs | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/workspace/boostvoronoi_core/src/visual_utils.rs b/workspace/boostvoronoi_core/src/visual_utils.rs
index 42c0c7e..94cbfef 100644
--- a/workspace/boostvoronoi_core/src/visual_utils.rs
+++ b/workspace/boostvoronoi_core/src/visual_utils.rs
@@ -102,8 +102,10 @@ impl VoronoiVisualUtils {
             let mut dist = (new_y - cur_y) * (mid_x - cur_x) - (new_x - cur_x) * (mid_y - cur_y);
             #[allow(clippy::suspicious_operation_groupings)]
             {
-                dist = dist * dist
-                    / ((new_y - cur_y) * (new_y - cur_y) + (new_x - cur_x) * (new_x - cur_x));
+                // the square of dist might not fit into F
+                dist = dist
+                    * (dist
+                        / ((new_y - cur_y) * (new_y - cur_y) + (new_x - cur_x) * (new_x - cur_x)));
             }
             // The furthest point lies between the two points, unless they are too close to each other
             // for the precision of the coordinates.
-- 
2.43.0

