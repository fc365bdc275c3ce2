From 38371a6adf32ed91047f2d4a3ae92697e160d874 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:45:04 +0000
Subject: [PATCH 01/17] fix: report the touching end point of reversed arcs on
 the same circle

---
 cavalier_contours/src/polyline/pline_seg_intersect.rs | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/cavalier_contours/src/polyline/pline_seg_intersect.rs b/cavalier_contours/src/polyline/pline_seg_intersect.rs
index 7433bf7..236764b 100644
--- a/cavalier_contours/src/polyline/pline_seg_intersect.rs
+++ b/cavalier_contours/src/polyline/pline_seg_intersect.rs
@@ -464,8 +464,13 @@ where
                     OneIntersect { point: v1.pos() }
                 }
                 (false, true) => {
-                    // only touch at start of arc2
-                    OneIntersect { point: u1.pos() }
+                    // only touch at start of arc2 (u2 if arc2 direction was reversed above)
+                    let point = if same_direction_arcs {
+                        u1.pos()
+                    } else {
+                        u2.pos()
+                    };
+                    OneIntersect { point }
                 }
                 (false, false) => {
                     // not just the end points touch, determine how the arcs overlap
-- 
2.43.0


From 9c565da636729e5238af4cb87bf1491b0bf48a2f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:56:39 +0000
Subject: [PATCH 02/17] fix: point on the opposite side of the circle is not
 within a short arc's sweep

---
 cavalier_contours/src/core/math/base_math.rs | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/cavalier_contours/src/core/math/base_math.rs b/cavalier_contours/src/core/math/base_math.rs
index bc71e77..5627593 100644
--- a/cavalier_contours/src/core/math/base_math.rs
+++ b/cavalier_contours/src/core/math/base_math.rs
@@ -445,6 +445,13 @@ pub fn point_within_arc_sweep<T>(
 where
     T: Real,
 {
+    // an arc sweeps at most half a turn so the point must also be on the arc's side of the center,
+    // with a short arc the fuzzy tests below are also true for points opposite of the arc
+    let bisector = (arc_start - center) + (arc_end - center);
+    if bisector.dot(point - center) < -epsilon {
+        return false;
+    }
+
     if is_clockwise {
         is_right_or_coincident_eps(center, arc_start, point, epsilon)
             && is_left_or_coincident_eps(center, arc_end, point, epsilon)
-- 
2.43.0


From 5680fadf3fa6bc2660ea17a2b314fc68e0edd43d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:04:11 +0000
Subject: [PATCH 03/17] fix: keep the vertex of a closed single vertex polyline
 when converting arcs to lines

---
 cavalier_contours/src/polyline/traits.rs | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/cavalier_contours/src/polyline/traits.rs b/cavalier_contours/src/polyline/traits.rs
index b74e547..df2ecbc 100644
--- a/cavalier_contours/src/polyline/traits.rs
+++ b/cavalier_contours/src/polyline/traits.rs
@@ -1246,8 +1246,9 @@ pub trait PlineSource {
             }
         }
 
-        if !self.is_closed() {
-            // add the final missing vertex in the case that the polyline is not closed
+        if !self.is_closed() || self.vertex_count() == 1 {
+            // add the final missing vertex in the case that the polyline is not closed (or has only
+            // a single vertex and no segments)
             result.add_vertex(self.last().unwrap());
         }
 
-- 
2.43.0


From 3758e1245936aaffc53297e2ea9ac96fca0c1393 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:04:11 +0000
Subject: [PATCH 04/17] fix: last() returns None for an empty polyline instead
 of underflowing

---
 cavalier_contours/src/polyline/traits.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/cavalier_contours/src/polyline/traits.rs b/cavalier_contours/src/polyline/traits.rs
index df2ecbc..08575c5 100644
--- a/cavalier_contours/src/polyline/traits.rs
+++ b/cavalier_contours/src/polyline/traits.rs
@@ -108,7 +108,7 @@ pub trait PlineSource {
     /// Get the last vertex of the polyline or `None` if polyline is empty.
     #[inline]
     fn last(&self) -> Option<PlineVertex<Self::Num>> {
-        self.get(self.vertex_count() - 1)
+        self.get(self.vertex_count().checked_sub(1)?)
     }
 
     /// Total number of segments in the polyline.
-- 
2.43.0


From 5cf2d1a3595a7e3a97dd2275fc7863e50585efce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:04:11 +0000
Subject: [PATCH 05/17] fix: find_point_at_path_length reports zero length for
 an empty polyline instead of panicking

---
 cavalier_contours/src/polyline/traits.rs | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/cavalier_contours/src/polyline/traits.rs b/cavalier_contours/src/polyline/traits.rs
index 08575c5..811b438 100644
--- a/cavalier_contours/src/polyline/traits.rs
+++ b/cavalier_contours/src/polyline/traits.rs
@@ -1513,7 +1513,11 @@ pub trait PlineSource {
         target_path_length: Self::Num,
     ) -> Result<(usize, Vector2<Self::Num>), Self::Num> {
         if target_path_length <= Self::Num::zero() {
-            return Ok((0, self.at(0).pos()));
+            return match self.get(0) {
+                Some(first) => Ok((0, first.pos())),
+                // empty polyline has no point to return, total path length is zero
+                None => Err(Self::Num::zero()),
+            };
         }
 
         let mut acc_length = Self::Num::zero();
-- 
2.43.0


From f953c99f3469e104c2b5f49885efe78d3af9388a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:07:00 +0000
Subject: [PATCH 06/17] fix: remove_redundant keeps the rest of the path when
 the polyline starts with repeats

Returned only the first vertex if the repeats at the start were followed by
a single vertex, and scanned past the end of the polyline otherwise (merging
the last arc of an open polyline with its unused last bulge).
---
 cavalier_contours/src/polyline/traits.rs | 14 ++++++--------
 1 file changed, 6 insertions(+), 8 deletions(-)

diff --git a/cavalier_contours/src/polyline/traits.rs b/cavalier_contours/src/polyline/traits.rs
index 811b438..fcb2e22 100644
--- a/cavalier_contours/src/polyline/traits.rs
+++ b/cavalier_contours/src/polyline/traits.rs
@@ -544,9 +544,11 @@ pub trait PlineSource {
         let mut i = 2;
         while v1.pos().fuzzy_eq_eps(v2.pos(), pos_equal_eps) {
             v1.bulge = v2.bulge;
-            // check for reaching the end of polyline
+            // if end is reached return polyline with the only vertex
             if i >= vc {
-                break;
+                let mut pl = Self::OutputPolyline::with_capacity(1, self.is_closed());
+                pl.add_vertex(v1);
+                return Some(pl);
             }
             v2 = self.at(i);
             i += 1;
@@ -559,18 +561,14 @@ pub trait PlineSource {
             pl.add_vertex(v1);
             Some(pl)
         };
-        // if end is reached return polyline with the only vertex
-        if i >= vc {
-            return result;
-        }
-
         let mut v1_v2_arc: Option<(Self::Num, Vector2<Self::Num>)> = None;
         let mut v1_bulge_is_zero = v1.bulge_is_zero();
         let mut v2_bulge_is_zero = v2.bulge_is_zero();
         let mut v1_bulge_is_pos = v1.bulge_is_pos();
         let mut v2_bulge_is_pos = v2.bulge_is_pos();
 
-        let iter_count = if self.is_closed() { vc - 1 } else { vc - 2 };
+        // v3 visits all remaining vertexes (and ends on the first vertex if closed)
+        let iter_count = if self.is_closed() { vc + 1 - i } else { vc - i };
 
         enum RemoveRedundantCase<U>
         where
-- 
2.43.0


From 44d861e4faa9793696df9c24badd23972b00046c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:07:06 +0000
Subject: [PATCH 07/17] fix: remove_redundant uses the merged first vertex when
 joining last and first

The wrap around step compared against the first vertex's original bulge, so
an arc already merged into the first vertex was taken for a different circle
(or a different circle for the same one) and a result with only one vertex
was indexed out of bounds.
---
 cavalier_contours/src/polyline/traits.rs | 21 +++++++++++++--------
 1 file changed, 13 insertions(+), 8 deletions(-)

diff --git a/cavalier_contours/src/polyline/traits.rs b/cavalier_contours/src/polyline/traits.rs
index fcb2e22..3e35787 100644
--- a/cavalier_contours/src/polyline/traits.rs
+++ b/cavalier_contours/src/polyline/traits.rs
@@ -693,11 +693,12 @@ pub trait PlineSource {
             // handle wrap around middle vertex at start
             match result.as_mut() {
                 Some(pl) => {
-                    if pl
-                        .last()
-                        .unwrap()
-                        .pos()
-                        .fuzzy_eq_eps(pl.at(0).pos(), pos_equal_eps)
+                    if pl.vertex_count() > 1
+                        && pl
+                            .last()
+                            .unwrap()
+                            .pos()
+                            .fuzzy_eq_eps(pl.at(0).pos(), pos_equal_eps)
                     {
                         pl.remove_last();
                     }
@@ -725,10 +726,14 @@ pub trait PlineSource {
             // v1 => last
             // v2 => first
             // v3 => second
-            let v3 = match result.as_ref() {
-                Some(pl) => pl.at(1),
-                None => self.at(1),
+            // (first vertex bulge may have been updated so it must be read from the result)
+            let (v2, v3) = match result.as_ref() {
+                Some(pl) if pl.vertex_count() < 2 => return result,
+                Some(pl) => (pl.at(0), pl.at(1)),
+                None => (self.at(0), self.at(1)),
             };
+            let v2_bulge_is_zero = v2.bulge_is_zero();
+            let v2_bulge_is_pos = v2.bulge_is_pos();
             if v1_bulge_is_zero && v2_bulge_is_zero && is_collinear_same_dir(&v1, &v2, &v3) {
                 // first vertex is in middle of line
                 let p = result.get_or_insert_with(|| {
-- 
2.43.0


From 7ee70ec15c26eba63bb24fd2ef25c27abf74c06c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:23:26 +0000
Subject: [PATCH 08/17] fix: remove_repeat_pos keeps one vertex when a closed
 polyline is all one position

---
 cavalier_contours/src/polyline/traits.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/cavalier_contours/src/polyline/traits.rs b/cavalier_contours/src/polyline/traits.rs
index 3e35787..4a6f966 100644
--- a/cavalier_contours/src/polyline/traits.rs
+++ b/cavalier_contours/src/polyline/traits.rs
@@ -437,8 +437,9 @@ pub trait PlineSource {
             }
         }
 
-        // check if is_closed and last repeats position on first
+        // check if is_closed and last repeats position on first (always keeping one vertex)
         if self.is_closed()
+            && result.as_ref().is_none_or(|r| r.vertex_count() > 1)
             && self
                 .last()
                 .unwrap()
-- 
2.43.0


From b269d0a26f727b6e0d09356e2a4c9cd96a3e0afd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:37:25 +0000
Subject: [PATCH 09/17] fix: free the polylines owned by a cavc_plinelist with
 the list

---
 cavalier_contours_ffi/src/lib.rs | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/cavalier_contours_ffi/src/lib.rs b/cavalier_contours_ffi/src/lib.rs
index 1ef075f..8fcbdab 100644
--- a/cavalier_contours_ffi/src/lib.rs
+++ b/cavalier_contours_ffi/src/lib.rs
@@ -1171,7 +1171,12 @@ pub unsafe extern "C" fn cavc_aabbindex_get_extents(
 #[unsafe(no_mangle)]
 pub unsafe extern "C" fn cavc_plinelist_f(plinelist: *mut cavc_plinelist) {
     if !plinelist.is_null() {
-        unsafe { drop(Box::from_raw(plinelist)) }
+        unsafe {
+            let plinelist = Box::from_raw(plinelist);
+            for &pline in &plinelist.0 {
+                cavc_pline_f(pline);
+            }
+        }
     }
 }
 
-- 
2.43.0


From 979d72cd708c2dd419d06fcab7213f813f713c1d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:44:17 +0000
Subject: [PATCH 10/17] fix: Vector2 declares the two elements it serializes

---
 cavalier_contours/src/core/math/vector2.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/cavalier_contours/src/core/math/vector2.rs b/cavalier_contours/src/core/math/vector2.rs
index 273952d..21b7943 100644
--- a/cavalier_contours/src/core/math/vector2.rs
+++ b/cavalier_contours/src/core/math/vector2.rs
@@ -124,7 +124,7 @@ mod serde_impl {
         where
             S: serde::Serializer,
         {
-            let mut tuple = serializer.serialize_tuple(3)?;
+            let mut tuple = serializer.serialize_tuple(2)?;
             tuple.serialize_element(&self.x)?;
             tuple.serialize_element(&self.y)?;
             tuple.end()
-- 
2.43.0


From 556f598c3146d3a816983586ecc0fbc0be5e72d2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:52:14 +0000
Subject: [PATCH 11/17] fix: arcs that start and end on one position have no
 length

Path length, closest point, midpoint, flattening and intersects of such arcs
computed an arc center by dividing by the chord's length (NaN, or a panic in
debug builds).
---
 cavalier_contours/src/polyline/pline_seg.rs          | 12 +++++++++++-
 .../src/polyline/pline_seg_intersect.rs              |  5 +++--
 cavalier_contours/src/polyline/traits.rs             |  6 ++++++
 3 files changed, 20 insertions(+), 3 deletions(-)

diff --git a/cavalier_contours/src/polyline/pline_seg.rs b/cavalier_contours/src/polyline/pline_seg.rs
index be73022..3c730de 100644
--- a/cavalier_contours/src/polyline/pline_seg.rs
+++ b/cavalier_contours/src/polyline/pline_seg.rs
@@ -228,6 +228,11 @@ where
         return line_seg_closest_point(v1.pos(), v2.pos(), point);
     }
 
+    if v1.pos().fuzzy_eq(v2.pos()) {
+        // arc has no length (and no center)
+        return v1.pos();
+    }
+
     let (arc_radius, arc_center) = seg_arc_radius_and_center(v1, v2);
     if point.fuzzy_eq_eps(arc_center, epsilon) {
         // avoid normalizing zero length vector (point is at center, just return start point)
@@ -389,7 +394,7 @@ pub fn seg_length<T>(v1: PlineVertex<T>, v2: PlineVertex<T>) -> T
 where
     T: Real,
 {
-    if v1.fuzzy_eq(v2) {
+    if v1.pos().fuzzy_eq(v2.pos()) {
         return T::zero();
     }
 
@@ -434,6 +439,11 @@ where
         return midpoint(v1.pos(), v2.pos());
     }
 
+    if v1.pos().fuzzy_eq(v2.pos()) {
+        // arc has no length (and no center)
+        return v1.pos();
+    }
+
     let (arc_radius, arc_center) = seg_arc_radius_and_center(v1, v2);
     let angle1 = angle(arc_center, v1.pos());
     let angle2 = angle(arc_center, v2.pos());
diff --git a/cavalier_contours/src/polyline/pline_seg_intersect.rs b/cavalier_contours/src/polyline/pline_seg_intersect.rs
index 236764b..3941602 100644
--- a/cavalier_contours/src/polyline/pline_seg_intersect.rs
+++ b/cavalier_contours/src/polyline/pline_seg_intersect.rs
@@ -66,8 +66,9 @@ where
     T: Real,
 {
     use PlineSegIntr::*;
-    let v_is_line = v1.bulge_is_zero();
-    let u_is_line = u1.bulge_is_zero();
+    // an arc that has no length (and no center) is treated as a line that has no length
+    let v_is_line = v1.bulge_is_zero() || v1.pos().fuzzy_eq(v2.pos());
+    let u_is_line = u1.bulge_is_zero() || u1.pos().fuzzy_eq(u2.pos());
 
     if v_is_line && u_is_line {
         let intr_result = line_line_intr(v1.pos(), v2.pos(), u1.pos(), u2.pos(), pos_equal_eps);
diff --git a/cavalier_contours/src/polyline/traits.rs b/cavalier_contours/src/polyline/traits.rs
index 4a6f966..438b91d 100644
--- a/cavalier_contours/src/polyline/traits.rs
+++ b/cavalier_contours/src/polyline/traits.rs
@@ -1218,6 +1218,12 @@ pub trait PlineSource {
                 continue;
             }
 
+            if v1.pos().fuzzy_eq(v2.pos()) {
+                // arc has no length (and no center)
+                result.add(v1.x, v1.y, Self::Num::zero());
+                continue;
+            }
+
             let (arc_radius, arc_center) = seg_arc_radius_and_center(v1, v2);
             if arc_radius.fuzzy_lt(error_distance) {
                 result.add(v1.x, v1.y, Self::Num::zero());
-- 
2.43.0


From 33bb6c98e52d9a0c0a180e2ff58ff8116f24558f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:54:34 +0000
Subject: [PATCH 12/17] fix: two arc intersects are ordered along the second
 segment

pline_seg_intr documents the two points as ordered according to the second
segment direction, and the self and pairwise intersect scans document the same
order for the two basic intersects of a segment pair. Two arcs returned them in
the order of the circle-circle solution.
---
 .../src/polyline/pline_seg_intersect.rs       | 56 ++++++++-----------
 1 file changed, 22 insertions(+), 34 deletions(-)

diff --git a/cavalier_contours/src/polyline/pline_seg_intersect.rs b/cavalier_contours/src/polyline/pline_seg_intersect.rs
index 3941602..ecc775c 100644
--- a/cavalier_contours/src/polyline/pline_seg_intersect.rs
+++ b/cavalier_contours/src/polyline/pline_seg_intersect.rs
@@ -363,64 +363,52 @@ where
                 try_add_end_point_intr(v2.pos());
             }
 
+            // helper function to order the intersect points according to second segment direction
+            let two_intersects = |pt1: Vector2<T>, pt2: Vector2<T>| {
+                if dist_squared(pt1, u1.pos()) < dist_squared(pt2, u1.pos()) {
+                    TwoIntersects {
+                        point1: pt1,
+                        point2: pt2,
+                    }
+                } else {
+                    TwoIntersects {
+                        point1: pt2,
+                        point2: pt1,
+                    }
+                }
+            };
+
             let pt1_in_sweep = both_arcs_sweep_point(point1);
             let pt2_in_sweep = both_arcs_sweep_point(point2);
             if pt1_in_sweep && pt2_in_sweep {
                 match (end_point_intrs[0], end_point_intrs[1]) {
-                    (None, None) => TwoIntersects { point1, point2 },
+                    (None, None) => two_intersects(point1, point2),
                     (None, Some(end_pt)) | (Some(end_pt), None) => {
                         if dist_squared(end_pt, point1) < dist_squared(end_pt, point2) {
-                            TwoIntersects {
-                                point1: end_pt,
-                                point2,
-                            }
+                            two_intersects(end_pt, point2)
                         } else {
-                            TwoIntersects {
-                                point1,
-                                point2: end_pt,
-                            }
-                        }
-                    }
-                    (Some(end_pt1), Some(end_pt2)) => {
-                        if dist_squared(end_pt1, point1) < dist_squared(end_pt2, point1) {
-                            TwoIntersects {
-                                point1: end_pt1,
-                                point2: end_pt2,
-                            }
-                        } else {
-                            TwoIntersects {
-                                point1: end_pt2,
-                                point2: end_pt1,
-                            }
+                            two_intersects(point1, end_pt)
                         }
                     }
+                    (Some(end_pt1), Some(end_pt2)) => two_intersects(end_pt1, end_pt2),
                 }
             } else if pt1_in_sweep {
                 match (end_point_intrs[0], end_point_intrs[1]) {
                     (None, None) => OneIntersect { point: point1 },
                     (None, Some(end_pt)) | (Some(end_pt), None) => OneIntersect { point: end_pt },
-                    (Some(end_pt1), Some(end_pt2)) => TwoIntersects {
-                        point1: end_pt1,
-                        point2: end_pt2,
-                    },
+                    (Some(end_pt1), Some(end_pt2)) => two_intersects(end_pt1, end_pt2),
                 }
             } else if pt2_in_sweep {
                 match (end_point_intrs[0], end_point_intrs[1]) {
                     (None, None) => OneIntersect { point: point2 },
                     (None, Some(end_pt)) | (Some(end_pt), None) => OneIntersect { point: end_pt },
-                    (Some(end_pt1), Some(end_pt2)) => TwoIntersects {
-                        point1: end_pt1,
-                        point2: end_pt2,
-                    },
+                    (Some(end_pt1), Some(end_pt2)) => two_intersects(end_pt1, end_pt2),
                 }
             } else {
                 match (end_point_intrs[0], end_point_intrs[1]) {
                     (None, None) => NoIntersect,
                     (None, Some(end_pt)) | (Some(end_pt), None) => OneIntersect { point: end_pt },
-                    (Some(end_pt1), Some(end_pt2)) => TwoIntersects {
-                        point1: end_pt1,
-                        point2: end_pt2,
-                    },
+                    (Some(end_pt1), Some(end_pt2)) => two_intersects(end_pt1, end_pt2),
                 }
             }
         }
-- 
2.43.0


From c88587876d257e85d23ac1babe90b0b19afbf7c1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:49:40 +0000
Subject: [PATCH 13/17] fix: a collapsed raw offset is valid only if all of its
 vertexes are

When the raw offset polyline has no self intersects only its first vertex was
tested against the offset distance. When the distance is exactly half of a
width (an L shape whose legs collapse while its corner square shrinks to a
point) the raw offset touches itself without an intersect, the first vertex is
at the distance, and loops through the input polyline were returned.
---
 .../src/polyline/internal/pline_offset.rs     | 48 +++++++++++--------
 1 file changed, 28 insertions(+), 20 deletions(-)

diff --git a/cavalier_contours/src/polyline/internal/pline_offset.rs b/cavalier_contours/src/polyline/internal/pline_offset.rs
index a542f3c..b995387 100644
--- a/cavalier_contours/src/polyline/internal/pline_offset.rs
+++ b/cavalier_contours/src/polyline/internal/pline_offset.rs
@@ -718,16 +718,20 @@ where
 
     let mut query_stack = Vec::new();
     if self_intrs.is_empty() {
-        // no self intersects, test point on polyline is valid
-        if !point_valid_for_offset(
-            original_polyline,
-            offset,
-            orig_polyline_index,
-            raw_offset_polyline.at(0).pos(),
-            &mut query_stack,
-            pos_equal_eps,
-            offset_dist_eps,
-        ) {
+        // no self intersects, test vertexes on polyline are valid (testing all of them since a
+        // collapsed polyline may still touch the offset distance at some of its vertexes)
+        let all_valid = raw_offset_polyline.iter_vertexes().all(|v| {
+            point_valid_for_offset(
+                original_polyline,
+                offset,
+                orig_polyline_index,
+                v.pos(),
+                &mut query_stack,
+                pos_equal_eps,
+                offset_dist_eps,
+            )
+        });
+        if !all_valid {
             // not valid
             return result;
         }
@@ -1103,16 +1107,20 @@ where
     let mut query_stack = Vec::with_capacity(8);
 
     if intersects_lookup.is_empty() {
-        // test a point on raw offset polyline
-        if !point_valid_for_offset(
-            original_polyline,
-            offset,
-            orig_polyline_index,
-            raw_offset_polyline.at(0).pos(),
-            &mut query_stack,
-            pos_equal_eps,
-            offset_dist_eps,
-        ) {
+        // test vertexes on raw offset polyline (testing all of them since a collapsed polyline may
+        // still touch the offset distance at some of its vertexes)
+        let all_valid = raw_offset_polyline.iter_vertexes().all(|v| {
+            point_valid_for_offset(
+                original_polyline,
+                offset,
+                orig_polyline_index,
+                v.pos(),
+                &mut query_stack,
+                pos_equal_eps,
+                offset_dist_eps,
+            )
+        });
+        if !all_valid {
             return result;
         }
 
-- 
2.43.0


From 8616cc4b856155cd4a0d6a570987ba7efbe59bea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:04:39 +0000
Subject: [PATCH 14/17] fix: intersects of a raw offset with the end circles
 are not lost at its vertexes

An intersect of the raw offset polyline with the circle about an end of the
open input was skipped when it fell on the vertex between two segments: it is
skipped at the start of the second segment, and rounding could put it just
past the end of the first one, or the first one just outside the index query.
The valid part of the offset was then dropped with the invalid part.
---
 .../src/polyline/internal/pline_offset.rs     | 33 +++++++++++--------
 1 file changed, 19 insertions(+), 14 deletions(-)

diff --git a/cavalier_contours/src/polyline/internal/pline_offset.rs b/cavalier_contours/src/polyline/internal/pline_offset.rs
index b995387..35065fe 100644
--- a/cavalier_contours/src/polyline/internal/pline_offset.rs
+++ b/cavalier_contours/src/polyline/internal/pline_offset.rs
@@ -938,9 +938,11 @@ fn visit_circle_intersects<P, T, F>(
 {
     let pos_equal_eps = options.pos_equal_eps;
 
-    let is_valid_line_intr = |t: T| -> bool {
-        // skip false intersects and intersects at start of seg
-        !is_false_intersect(t) && t.abs() > pos_equal_eps
+    let is_valid_line_intr = |t: T, line_end: Vector2<T>, intr: Vector2<T>| -> bool {
+        // skip false intersects and intersects at start of seg (fuzzy at the end of seg so that an
+        // intersect at the vertex between two segs is not skipped by both)
+        (!is_false_intersect(t) && t.abs() > pos_equal_eps)
+            || line_end.fuzzy_eq_eps(intr, pos_equal_eps)
     };
 
     let is_valid_arc_intr = |arc_center: Vector2<T>,
@@ -961,11 +963,13 @@ fn visit_circle_intersects<P, T, F>(
             )
     };
 
+    // fuzzy query to not miss segs that only touch the circle
+    let query_radius = circle_radius + pos_equal_eps;
     let query_results = aabb_index.query(
-        circle_center.x - circle_radius,
-        circle_center.y - circle_radius,
-        circle_center.x + circle_radius,
-        circle_center.y + circle_radius,
+        circle_center.x - query_radius,
+        circle_center.y - query_radius,
+        circle_center.x + query_radius,
+        circle_center.y + query_radius,
     );
 
     for start_index in query_results {
@@ -981,16 +985,17 @@ fn visit_circle_intersects<P, T, F>(
             ) {
                 LineCircleIntr::NoIntersect => {}
                 LineCircleIntr::TangentIntersect { t0 } => {
-                    if is_valid_line_intr(t0) {
-                        visitor(start_index, point_from_parametric(v1.pos(), v2.pos(), t0));
+                    let point = point_from_parametric(v1.pos(), v2.pos(), t0);
+                    if is_valid_line_intr(t0, v2.pos(), point) {
+                        visitor(start_index, point);
                     }
                 }
                 LineCircleIntr::TwoIntersects { t0, t1 } => {
-                    if is_valid_line_intr(t0) {
-                        visitor(start_index, point_from_parametric(v1.pos(), v2.pos(), t0));
-                    }
-                    if is_valid_line_intr(t1) {
-                        visitor(start_index, point_from_parametric(v1.pos(), v2.pos(), t1));
+                    for t in [t0, t1] {
+                        let point = point_from_parametric(v1.pos(), v2.pos(), t);
+                        if is_valid_line_intr(t, v2.pos(), point) {
+                            visitor(start_index, point);
+                        }
                     }
                 }
             }
-- 
2.43.0


From 6b9d819a0ad9934694d49b21af3caceeb2bcc12f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:04:39 +0000
Subject: [PATCH 15/17] fix: an open raw offset is also cut where an overlap
 with its dual ends

Where the raw offset of an open polyline overlaps the dual raw offset (a gap
of exactly twice the offset distance) it goes from valid to invalid at the end
points of the overlap. Without a cut there the slice was rejected as a whole
and its valid part was missing from the result.
---
 cavalier_contours/src/polyline/internal/pline_offset.rs | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/cavalier_contours/src/polyline/internal/pline_offset.rs b/cavalier_contours/src/polyline/internal/pline_offset.rs
index 35065fe..dff896b 100644
--- a/cavalier_contours/src/polyline/internal/pline_offset.rs
+++ b/cavalier_contours/src/polyline/internal/pline_offset.rs
@@ -1107,7 +1107,14 @@ where
     for &intr in dual_intrs.basic_intersects.iter() {
         add_intr(intr.start_index1, intr.point);
     }
-    // Note not adding any overlapping intersects (they can only arise due to collapsing regions)
+    // overlapping intersects can only arise due to collapsing regions; along an open polyline the raw
+    // offset may go from invalid to valid (or the reverse) where such an overlap starts or ends
+    if !original_polyline.is_closed() {
+        for &intr in dual_intrs.overlapping_intersects.iter() {
+            add_intr(intr.start_index1, intr.point1);
+            add_intr(intr.start_index1, intr.point2);
+        }
+    }
 
     let mut query_stack = Vec::with_capacity(8);
 
-- 
2.43.0


From fefcd6523f3fca7d0ae73659107dd66448a9959d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:15:07 +0000
Subject: [PATCH 16/17] fix: stitched slices of a closed input close within the
 join tolerance

Slices are joined within slice_join_eps, and a single slice is closed within
it, but several slices were only closed within pos_equal_eps: a closed input
could come back as an open polyline.
---
 .../src/polyline/internal/pline_offset.rs       | 17 +++++++++++++++--
 1 file changed, 15 insertions(+), 2 deletions(-)

diff --git a/cavalier_contours/src/polyline/internal/pline_offset.rs b/cavalier_contours/src/polyline/internal/pline_offset.rs
index dff896b..0f209d4 100644
--- a/cavalier_contours/src/polyline/internal/pline_offset.rs
+++ b/cavalier_contours/src/polyline/internal/pline_offset.rs
@@ -1473,12 +1473,25 @@ where
                 if current_pline.vertex_count() > 1 {
                     let current_pline_sp = current_pline.at(0).pos();
                     let current_pline_ep = current_pline.last().unwrap().pos();
-                    if is_closed && current_pline_sp.fuzzy_eq_eps(current_pline_ep, pos_equal_eps) {
+                    if is_closed && current_pline_sp.fuzzy_eq_eps(current_pline_ep, join_eps) {
                         current_pline.remove_last();
+                        // the join tolerance is wider than the repeat position tolerance, so the
+                        // vertex before may now repeat the first one
+                        while current_pline.vertex_count() > 1
+                            && current_pline
+                                .last()
+                                .unwrap()
+                                .pos()
+                                .fuzzy_eq_eps(current_pline_sp, pos_equal_eps)
+                        {
+                            current_pline.remove_last();
+                        }
                         current_pline.set_is_closed(true);
                     }
 
-                    result.push(current_pline);
+                    if current_pline.vertex_count() > 1 {
+                        result.push(current_pline);
+                    }
                 }
                 break;
             }
-- 
2.43.0


From 433663202e4ce99236f83fd9f7526a499c2b7faa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:27:29 +0000
Subject: [PATCH 17/17] fix: bulge of an overlapping slice that ends mid
 segment after several parts

When the last segment of the second polyline is overlapped in several parts
(the first polyline has a vertex along it) the end bulge of the joined slice
was computed for the last part only, though the slice goes on from the start
of that segment, so the slice followed a different arc.
---
 .../src/polyline/internal/pline_intersects.rs      | 14 ++++----------
 1 file changed, 4 insertions(+), 10 deletions(-)

diff --git a/cavalier_contours/src/polyline/internal/pline_intersects.rs b/cavalier_contours/src/polyline/internal/pline_intersects.rs
index 0471a66..2bd9e16 100644
--- a/cavalier_contours/src/polyline/internal/pline_intersects.rs
+++ b/cavalier_contours/src/polyline/internal/pline_intersects.rs
@@ -594,7 +594,8 @@ where
                     } else {
                         // slice is not on one pline2 segment
                         // updated_start positioned at start_intr.point1 and connects with start_u2
-                        // updated_end positioned at end_intr.point1 and connects with end_intr.point2
+                        // updated_end positioned at end_u1 (the overlap may have been found in several
+                        // parts on the last pline2 segment) and connects with end_intr.point2
                         // end_point positioned at end_intr.point2
                         let updated_start = {
                             let split1 = seg_split_at_point(
@@ -611,15 +612,8 @@ where
                             let end_u2 =
                                 pline2.at(pline2.next_wrapping_index(end_intr.start_index2));
 
-                            let split1 =
-                                seg_split_at_point(end_u1, end_u2, end_intr.point1, pos_equal_eps);
-                            let split2 = seg_split_at_point(
-                                split1.split_vertex,
-                                end_u2,
-                                end_intr.point2,
-                                pos_equal_eps,
-                            );
-                            split2.updated_start
+                            seg_split_at_point(end_u1, end_u2, end_intr.point2, pos_equal_eps)
+                                .updated_start
                         };
 
                         Self {
-- 
2.43.0

