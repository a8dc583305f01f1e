From 98074950a6cb1d6c6cb0accb3f88fece13ecace4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:48:16 +0000
Subject: [PATCH 01/11] fix: intersection_point3 compared y against x, so
 straight continuations of a line were reported as overlaps and vertical
 fold-backs were missed

---
 src/linestring_2d.rs | 45 ++++++++------------------------------------
 1 file changed, 8 insertions(+), 37 deletions(-)

diff --git a/src/linestring_2d.rs b/src/linestring_2d.rs
index 65504a2..e45454e 100644
--- a/src/linestring_2d.rs
+++ b/src/linestring_2d.rs
@@ -328,47 +328,18 @@ impl<T: GenericVector2> Line2<T> {
         middle: T,
         end: T,
     ) -> Result<Option<Intersection<T>>, LinestringError> {
-        let middle_sub_start = T::new_2d(middle.x() - start.x(), middle.y() - start.x());
-        let middle_sub_end = T::new_2d(middle.x() - end.x(), middle.y() - end.y());
-        let start_is_vertical = ulps_eq!(middle_sub_start.x(), T::Scalar::ZERO);
-        let end_is_vertical = ulps_eq!(middle_sub_end.x(), T::Scalar::ZERO);
-
-        if start_is_vertical && end_is_vertical {
-            // both lines are vertical
-            return if middle_sub_start.y().is_sign_negative()
-                && !middle_sub_end.y().is_sign_negative()
-            {
-                // opposite direction
-                Ok(None)
-            } else {
-                // pick the shortest vector for overlap point
-                if (middle_sub_start.x() * middle_sub_start.x()
-                    + middle_sub_start.y() * middle_sub_start.y())
-                    < (middle_sub_end.x() * middle_sub_end.x()
-                        + middle_sub_end.y() * middle_sub_end.y())
-                {
-                    Ok(Some(Intersection::Overlap(Line2 { start, end: middle })))
-                } else {
-                    Ok(Some(Intersection::Overlap(Line2 { start: middle, end })))
-                }
-            };
-        } else if start_is_vertical || end_is_vertical {
-            return Ok(None);
-        }
-
-        // both lines should now be non-vertical, we can compare their slope
-        let start_slope = middle_sub_start.x() / middle_sub_start.y();
-        let end_slope = middle_sub_end.x() / middle_sub_end.y();
+        let to_start = start - middle;
+        let to_end = end - middle;
 
-        if !ulps_eq!(&start_slope, &end_slope) {
+        if !ulps_eq!(to_start.x() * to_end.y(), to_start.y() * to_end.x())
+            || to_start.dot(to_end) <= T::Scalar::ZERO
+        {
+            // not parallel, or the second line continues in the same direction as the first
             return Ok(None);
         }
 
-        // Slope identical, pick the shortest vector for overlap point
-        if (middle_sub_start.x() * middle_sub_start.x()
-            + middle_sub_start.y() * middle_sub_start.y())
-            < (middle_sub_end.x() * middle_sub_end.x() + middle_sub_end.y() * middle_sub_end.y())
-        {
+        // The second line folds back over the first, pick the shortest vector for overlap point
+        if to_start.magnitude_sq() < to_end.magnitude_sq() {
             Ok(Some(Intersection::Overlap(Line2 { start, end: middle })))
         } else {
             Ok(Some(Intersection::Overlap(Line2 { start: middle, end })))
-- 
2.43.0


From db57644b73ab12700b766d7ca0f7e91d0a4150f8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:48:19 +0000
Subject: [PATCH 02/11] fix: is_self_intersecting ignored overlapping lines
 when the overlap started at a shared end point

---
 src/linestring_2d.rs | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/src/linestring_2d.rs b/src/linestring_2d.rs
index e45454e..8ee9b8e 100644
--- a/src/linestring_2d.rs
+++ b/src/linestring_2d.rs
@@ -702,8 +702,12 @@ impl<T: GenericVector2> LineString2<T> for Vec<T> {
                         if Line2::intersection_point3(l0.1.start, l0.1.end, l1.1.end)?.is_some() {
                             return Ok(true);
                         }
-                    } else if let Some(point) = l0.1.intersection_point(l1.1) {
-                        let point = point.single();
+                    } else if let Some(intersection) = l0.1.intersection_point(l1.1) {
+                        let point = match intersection {
+                            Intersection::Intersection(point) => point,
+                            // an overlap is never just a shared end point
+                            Intersection::Overlap(_) => return Ok(true),
+                        };
                         if (point.is_ulps_eq(
                             l0.1.start,
                             T::Scalar::default_epsilon(),
-- 
2.43.0


From 69daed99746ab7976286db291764b7905c750917 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:48:20 +0000
Subject: [PATCH 03/11] fix: contains_point_exclusive rejected interior points
 lying on an inner diagonal of the hull

---
 src/linestring_2d/convex_hull.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/linestring_2d/convex_hull.rs b/src/linestring_2d/convex_hull.rs
index 071a8c1..5e49394 100644
--- a/src/linestring_2d/convex_hull.rs
+++ b/src/linestring_2d/convex_hull.rs
@@ -1365,7 +1365,8 @@ pub fn contains_point_exclusive<T: GenericVector2>(input: &Vec<T>, p: T) -> bool
     //println!("{:?}", slice );
     // Check the final slice (triangle)
     if retain_index_0 {
-        if !is_point_left(input[input_offset], slice[0], p) {
+        // this edge is an inner diagonal of the hull, points on it are still inside
+        if !is_point_left_allow_collinear(input[input_offset], slice[0], p) {
             //println!("return false 3.1 for slice: 0+{:?}", slice);
             return false;
         }
-- 
2.43.0


From dd5b6eb63238d17f6331937f1a30683d4d069901 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:48:30 +0000
Subject: [PATCH 04/11] fix: the hull of exactly three points was not closed

---
 src/linestring_2d/convex_hull.rs | 36 +++++++++++++++++++++++++-------
 1 file changed, 28 insertions(+), 8 deletions(-)

diff --git a/src/linestring_2d/convex_hull.rs b/src/linestring_2d/convex_hull.rs
index 5e49394..ef810b5 100644
--- a/src/linestring_2d/convex_hull.rs
+++ b/src/linestring_2d/convex_hull.rs
@@ -279,9 +279,9 @@ pub fn gift_wrap<T: GenericVector2>(mut vertices: &[T]) -> Result<Vec<T>, Linest
     }
     if vertices.len() == 3 {
         return if is_point_left(vertices[0], vertices[1], vertices[2]) {
-            Ok(vertices.to_vec())
+            Ok(vec![vertices[0], vertices[1], vertices[2], vertices[0]])
         } else {
-            Ok(vec![vertices[0], vertices[2], vertices[1]])
+            Ok(vec![vertices[0], vertices[2], vertices[1], vertices[0]])
         };
     }
 
@@ -537,9 +537,19 @@ pub fn graham_scan_wo_atan2<T: GenericVector2>(
     }
     if input_points.len() == 3 {
         return if is_point_left(input_points[0], input_points[1], input_points[2]) {
-            Ok(input_points.to_vec())
+            Ok(vec![
+                input_points[0],
+                input_points[1],
+                input_points[2],
+                input_points[0],
+            ])
         } else {
-            Ok(vec![input_points[0], input_points[2], input_points[1]])
+            Ok(vec![
+                input_points[0],
+                input_points[2],
+                input_points[1],
+                input_points[0],
+            ])
         };
     }
 
@@ -632,9 +642,19 @@ pub fn graham_scan<T: GenericVector2>(mut input_points: &[T]) -> Result<Vec<T>,
     }
     if input_points.len() == 3 {
         return if is_point_left(input_points[0], input_points[1], input_points[2]) {
-            Ok(input_points.to_vec())
+            Ok(vec![
+                input_points[0],
+                input_points[1],
+                input_points[2],
+                input_points[0],
+            ])
         } else {
-            Ok(vec![input_points[0], input_points[2], input_points[1]])
+            Ok(vec![
+                input_points[0],
+                input_points[2],
+                input_points[1],
+                input_points[0],
+            ])
         };
     }
 
@@ -1143,10 +1163,10 @@ pub fn convex_hull_par<T: GenericVector2>(
             vertices[indices[2]],
         ) {
             // input_indices was already CCW
-            Ok(indices.to_vec())
+            Ok(vec![indices[0], indices[1], indices[2], indices[0]])
         } else {
             // Convert from CW to CCW
-            Ok(vec![indices[0], indices[2], indices[1]])
+            Ok(vec![indices[0], indices[2], indices[1], indices[0]])
         };
     }
 
-- 
2.43.0


From 12b525dddffe98636d9c4fa2142a706486a0ea1b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:48:45 +0000
Subject: [PATCH 05/11] fix: the hull of a single point was empty

---
 src/linestring_2d/convex_hull.rs | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/linestring_2d/convex_hull.rs b/src/linestring_2d/convex_hull.rs
index ef810b5..cb36154 100644
--- a/src/linestring_2d/convex_hull.rs
+++ b/src/linestring_2d/convex_hull.rs
@@ -270,7 +270,7 @@ pub fn gift_wrap<T: GenericVector2>(mut vertices: &[T]) -> Result<Vec<T>, Linest
     if vertices.is_empty() {
         return Ok(Vec::with_capacity(0));
     }
-    if vertices[0] == vertices[vertices.len() - 1] {
+    if vertices.len() > 1 && vertices[0] == vertices[vertices.len() - 1] {
         // disregard the duplicated loop point if it exists
         vertices = &vertices[1..];
     }
@@ -528,7 +528,7 @@ pub fn graham_scan_wo_atan2<T: GenericVector2>(
     if input_points.is_empty() {
         return Ok(Vec::with_capacity(0));
     }
-    if !input_points.is_empty() && (input_points[0] == input_points[input_points.len() - 1]) {
+    if input_points.len() > 1 && (input_points[0] == input_points[input_points.len() - 1]) {
         // disregard the duplicated loop point if it exists
         input_points = &input_points[1..];
     }
@@ -633,7 +633,7 @@ pub fn graham_scan<T: GenericVector2>(mut input_points: &[T]) -> Result<Vec<T>,
     if input_points.is_empty() {
         return Ok(Vec::with_capacity(0));
     }
-    if !input_points.is_empty() && (input_points[0] == input_points[input_points.len() - 1]) {
+    if input_points.len() > 1 && (input_points[0] == input_points[input_points.len() - 1]) {
         // disregard the duplicated loop point if it exists
         input_points = &input_points[1..];
     }
-- 
2.43.0


From 7b938cff96ffa3ec1e8263c13ad9e471266a745e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:49:45 +0000
Subject: [PATCH 06/11] fix: the hull of three collinear points kept the middle
 point, which convex_hull_par could pass on

---
 src/linestring_2d/convex_hull.rs | 112 +++++++++++++++++--------------
 1 file changed, 62 insertions(+), 50 deletions(-)

diff --git a/src/linestring_2d/convex_hull.rs b/src/linestring_2d/convex_hull.rs
index cb36154..d6733e1 100644
--- a/src/linestring_2d/convex_hull.rs
+++ b/src/linestring_2d/convex_hull.rs
@@ -278,11 +278,15 @@ pub fn gift_wrap<T: GenericVector2>(mut vertices: &[T]) -> Result<Vec<T>, Linest
         return Ok(vertices.to_vec());
     }
     if vertices.len() == 3 {
-        return if is_point_left(vertices[0], vertices[1], vertices[2]) {
-            Ok(vec![vertices[0], vertices[1], vertices[2], vertices[0]])
-        } else {
-            Ok(vec![vertices[0], vertices[2], vertices[1], vertices[0]])
-        };
+        match point_orientation(vertices[0], vertices[1], vertices[2]) {
+            Orientation::Left => {
+                return Ok(vec![vertices[0], vertices[1], vertices[2], vertices[0]])
+            }
+            Orientation::Right => {
+                return Ok(vec![vertices[0], vertices[2], vertices[1], vertices[0]])
+            }
+            Orientation::Collinear => (),
+        }
     }
 
     let starting_point = find_lowest_x(vertices)?.0;
@@ -420,17 +424,17 @@ fn indexed_gift_wrap_no_loop<T: GenericVector2>(
         return Ok(indices.to_vec());
     }
     if indices.len() == 3 {
-        return if is_point_left(
+        match point_orientation(
             vertices[indices[0]],
             vertices[indices[1]],
             vertices[indices[2]],
         ) {
             // input_indices was already CCW
-            Ok(indices.to_vec())
-        } else {
+            Orientation::Left => return Ok(indices.to_vec()),
             // Convert from CW to CCW
-            Ok(vec![indices[0], indices[2], indices[1]])
-        };
+            Orientation::Right => return Ok(vec![indices[0], indices[2], indices[1]]),
+            Orientation::Collinear => (),
+        }
     }
     let starting_index = indexed_find_lowest_x(vertices, indices)?.0;
 
@@ -536,21 +540,25 @@ pub fn graham_scan_wo_atan2<T: GenericVector2>(
         return Ok(input_points.to_vec());
     }
     if input_points.len() == 3 {
-        return if is_point_left(input_points[0], input_points[1], input_points[2]) {
-            Ok(vec![
-                input_points[0],
-                input_points[1],
-                input_points[2],
-                input_points[0],
-            ])
-        } else {
-            Ok(vec![
-                input_points[0],
-                input_points[2],
-                input_points[1],
-                input_points[0],
-            ])
-        };
+        match point_orientation(input_points[0], input_points[1], input_points[2]) {
+            Orientation::Left => {
+                return Ok(vec![
+                    input_points[0],
+                    input_points[1],
+                    input_points[2],
+                    input_points[0],
+                ])
+            }
+            Orientation::Right => {
+                return Ok(vec![
+                    input_points[0],
+                    input_points[2],
+                    input_points[1],
+                    input_points[0],
+                ])
+            }
+            Orientation::Collinear => (),
+        }
     }
 
     let mut input_points = input_points.to_vec();
@@ -641,21 +649,25 @@ pub fn graham_scan<T: GenericVector2>(mut input_points: &[T]) -> Result<Vec<T>,
         return Ok(input_points.to_vec());
     }
     if input_points.len() == 3 {
-        return if is_point_left(input_points[0], input_points[1], input_points[2]) {
-            Ok(vec![
-                input_points[0],
-                input_points[1],
-                input_points[2],
-                input_points[0],
-            ])
-        } else {
-            Ok(vec![
-                input_points[0],
-                input_points[2],
-                input_points[1],
-                input_points[0],
-            ])
-        };
+        match point_orientation(input_points[0], input_points[1], input_points[2]) {
+            Orientation::Left => {
+                return Ok(vec![
+                    input_points[0],
+                    input_points[1],
+                    input_points[2],
+                    input_points[0],
+                ])
+            }
+            Orientation::Right => {
+                return Ok(vec![
+                    input_points[0],
+                    input_points[2],
+                    input_points[1],
+                    input_points[0],
+                ])
+            }
+            Orientation::Collinear => (),
+        }
     }
 
     let (_, starting_point) = find_lowest_x(input_points)?;
@@ -784,17 +796,17 @@ pub fn indexed_graham_scan_no_loop<T: GenericVector2>(
         return Ok(indices.to_vec());
     }
     if indices.len() == 3 {
-        return if is_point_left(
+        match point_orientation(
             vertices[indices[0]],
             vertices[indices[1]],
             vertices[indices[2]],
         ) {
             // input_indices was already CCW
-            Ok(indices.to_vec())
-        } else {
+            Orientation::Left => return Ok(indices.to_vec()),
             // Convert from CW to CCW
-            Ok(vec![indices[0], indices[2], indices[1]])
-        };
+            Orientation::Right => return Ok(vec![indices[0], indices[2], indices[1]]),
+            Orientation::Collinear => (),
+        }
     }
     let (start_index, start_point) = if let Some(start_index) = start_index {
         (start_index, vertices[start_index])
@@ -1157,17 +1169,17 @@ pub fn convex_hull_par<T: GenericVector2>(
         return Ok(indices.to_vec());
     }
     if indices.len() == 3 {
-        return if is_point_left(
+        match point_orientation(
             vertices[indices[0]],
             vertices[indices[1]],
             vertices[indices[2]],
         ) {
             // input_indices was already CCW
-            Ok(vec![indices[0], indices[1], indices[2], indices[0]])
-        } else {
+            Orientation::Left => return Ok(vec![indices[0], indices[1], indices[2], indices[0]]),
             // Convert from CW to CCW
-            Ok(vec![indices[0], indices[2], indices[1], indices[0]])
-        };
+            Orientation::Right => return Ok(vec![indices[0], indices[2], indices[1], indices[0]]),
+            Orientation::Collinear => (),
+        }
     }
 
     // Create chunks of indices
-- 
2.43.0


From 31b8eba85e729e6d77cfbca1a8abf13e21b4b669 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:51:25 +0000
Subject: [PATCH 07/11] fix: duplicated points made gift wrapping and the
 indexed hull functions return a wrong hull

---
 src/linestring_2d/convex_hull.rs | 14 +++++++-------
 1 file changed, 7 insertions(+), 7 deletions(-)

diff --git a/src/linestring_2d/convex_hull.rs b/src/linestring_2d/convex_hull.rs
index d6733e1..db3ff18 100644
--- a/src/linestring_2d/convex_hull.rs
+++ b/src/linestring_2d/convex_hull.rs
@@ -327,7 +327,7 @@ pub fn gift_wrap<T: GenericVector2>(mut vertices: &[T]) -> Result<Vec<T>, Linest
                     // if point_on_hull->end_point && point_on_hull->candidate are collinear and
                     // the distance to the collinear is greater we also update end_point
                     end_point = j;
-                } else if j != starting_point {
+                } else if distance_sq_candidate < distance_sq_end_point && j != starting_point {
                     // This is a collinear point that is closer to the current point, mark it as visited
                     //println!("coll marking {:?}:{} as visited", input_points[j], j);
                     let _ = visited.set(j, true);
@@ -336,7 +336,7 @@ pub fn gift_wrap<T: GenericVector2>(mut vertices: &[T]) -> Result<Vec<T>, Linest
         }
 
         point_on_hull = end_point;
-        if end_point == starting_point {
+        if vertices[end_point] == vertices[starting_point] {
             // complete the loop, `hull` now represents a closed loop of points.
             // Each edge can be iterated over by `hull.iter().window(2)`
             hull.push(vertices[end_point]);
@@ -476,7 +476,7 @@ fn indexed_gift_wrap_no_loop<T: GenericVector2>(
                     // if point_on_hull->end_point && point_on_hull->candidate are collinear and
                     // the distance to the collinear is greater we also update end_point
                     end_point = j;
-                } else if j != starting_index {
+                } else if distance_sq_candidate < distance_sq_end_point && j != starting_index {
                     // This is a collinear point that is closer to the current point, mark it as visited
                     let _ = visited.set(j, true);
                 }
@@ -484,7 +484,7 @@ fn indexed_gift_wrap_no_loop<T: GenericVector2>(
         }
 
         point_on_hull = end_point;
-        if end_point == starting_index {
+        if vertices[indices[end_point]] == vertices[indices[starting_index]] {
             break;
         }
     }
@@ -836,10 +836,10 @@ pub fn indexed_graham_scan_no_loop<T: GenericVector2>(
     hull.push(start_index);
 
     for i in sorted_indices.iter() {
-        if *i == start_index {
+        let p = vertices[*i];
+        if p == start_point {
             continue;
         }
-        let p = vertices[*i];
         while hull.len() > 1 {
             let last_in_hull = hull.len() - 1;
             let cross = cross_2d(
@@ -1091,7 +1091,7 @@ fn combine_indexed_convex_hull<T: GenericVector2>(
         println!();
          */
         point_on_hull = end_point.clone();
-        if end_point.index == starting_index.index {
+        if vertices[end_point.index] == vertices[starting_index.index] {
             break;
         }
     }
-- 
2.43.0


From 135fa767fe6ad46e0fd4fd4e96335cf93da822b3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:58:38 +0000
Subject: [PATCH 08/11] fix: arcs turning away from a discretization segment
 were farther from it than max_dist

The distance that was compared with max_dist is the distance to the infinite
line through the segment. Where the arc is closest to an end point of the
segment it can be arbitrarily farther away, such a segment is now divided.
---
 src/linestring_2d.rs | 19 +++++++++++++++++--
 1 file changed, 17 insertions(+), 2 deletions(-)

diff --git a/src/linestring_2d.rs b/src/linestring_2d.rs
index 8ee9b8e..69e7871 100644
--- a/src/linestring_2d.rs
+++ b/src/linestring_2d.rs
@@ -449,7 +449,10 @@ impl<T: GenericVector2> VoronoiParabolicArc<T> {
                 dist = dist * dist
                     / ((new_y - cur_y) * (new_y - cur_y) + (new_x - cur_x) * (new_x - cur_x));
             }
-            if dist <= max_dist_transformed {
+            if dist <= max_dist_transformed
+                && !Self::turns_away(cur_x, mid_x, rot_x, rot_y)
+                && !Self::turns_away(new_x, mid_x, rot_x, rot_y)
+            {
                 // Distance between parabola and line segment is less than max_dist.
                 let _ = point_stack.pop();
                 let inter_x = (segm_vec_x * new_x - segm_vec_y * new_y) / sqr_segment_length
@@ -563,7 +566,10 @@ impl<T: GenericVector2> VoronoiParabolicArc<T> {
                 dist = dist * dist
                     / ((new_y - cur_y) * (new_y - cur_y) + (new_x - cur_x) * (new_x - cur_x));
             }
-            if dist <= max_dist_transformed {
+            if dist <= max_dist_transformed
+                && !Self::turns_away(cur_x, mid_x, rot_x, rot_y)
+                && !Self::turns_away(new_x, mid_x, rot_x, rot_y)
+            {
                 // Distance between parabola and line segment is less than max_dist.
                 let _ = point_stack.pop();
                 let inter_x = (segm_vec_x * new_x - segm_vec_y * new_y) / sqr_segment_length
@@ -592,6 +598,15 @@ impl<T: GenericVector2> VoronoiParabolicArc<T> {
         ((x - a) * (x - a) + b * b) / (b + b)
     }
 
+    /// Is the arc heading away from the line segment that discretize it, at its end point 'x'?
+    /// Then a part of the arc is closer to that end point than to the rest of the line segment,
+    /// and the distance to the infinite line says nothing about it.
+    /// 'mid_x' is where the parabola has the slope of the line segment.
+    #[inline(always)]
+    fn turns_away(x: T::Scalar, mid_x: T::Scalar, rot_x: T::Scalar, rot_y: T::Scalar) -> bool {
+        (mid_x - rot_x) * (x - rot_x) + rot_y * rot_y < T::Scalar::ZERO
+    }
+
     /// Get normalized length of the distance between:
     ///   1) point projection onto the segment
     ///   2) start point of the segment
-- 
2.43.0


From d58a71c063c835156e2a910a46402ccb4e5f8528 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:59:01 +0000
Subject: [PATCH 09/11] fix: discretizing a parabolic arc never ended when no x
 lies between two points

A start point equal to the end point made the division point NaN, and with
large coordinates it can be rounded to one of the end points.
---
 src/linestring_2d.rs | 20 ++++++++++++++------
 1 file changed, 14 insertions(+), 6 deletions(-)

diff --git a/src/linestring_2d.rs b/src/linestring_2d.rs
index 69e7871..2cd1ada 100644
--- a/src/linestring_2d.rs
+++ b/src/linestring_2d.rs
@@ -449,9 +449,13 @@ impl<T: GenericVector2> VoronoiParabolicArc<T> {
                 dist = dist * dist
                     / ((new_y - cur_y) * (new_y - cur_y) + (new_x - cur_x) * (new_x - cur_x));
             }
-            if dist <= max_dist_transformed
-                && !Self::turns_away(cur_x, mid_x, rot_x, rot_y)
-                && !Self::turns_away(new_x, mid_x, rot_x, rot_y)
+            // There is nothing left to divide when mid_x isn't between the points.
+            // (if they coincide mid_x isn't even a number)
+            let divisible = mid_x > cur_x.min(new_x) && mid_x < cur_x.max(new_x);
+            if !divisible
+                || dist <= max_dist_transformed
+                    && !Self::turns_away(cur_x, mid_x, rot_x, rot_y)
+                    && !Self::turns_away(new_x, mid_x, rot_x, rot_y)
             {
                 // Distance between parabola and line segment is less than max_dist.
                 let _ = point_stack.pop();
@@ -566,9 +570,13 @@ impl<T: GenericVector2> VoronoiParabolicArc<T> {
                 dist = dist * dist
                     / ((new_y - cur_y) * (new_y - cur_y) + (new_x - cur_x) * (new_x - cur_x));
             }
-            if dist <= max_dist_transformed
-                && !Self::turns_away(cur_x, mid_x, rot_x, rot_y)
-                && !Self::turns_away(new_x, mid_x, rot_x, rot_y)
+            // There is nothing left to divide when mid_x isn't between the points.
+            // (if they coincide mid_x isn't even a number)
+            let divisible = mid_x > cur_x.min(new_x) && mid_x < cur_x.max(new_x);
+            if !divisible
+                || dist <= max_dist_transformed
+                    && !Self::turns_away(cur_x, mid_x, rot_x, rot_y)
+                    && !Self::turns_away(new_x, mid_x, rot_x, rot_y)
             {
                 // Distance between parabola and line segment is less than max_dist.
                 let _ = point_stack.pop();
-- 
2.43.0


From 39d3f0fae095dc501868a86e960c52805c79aefc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:00:05 +0000
Subject: [PATCH 10/11] fix: combining convex hulls could end the search for
 the next corner too early

---
 src/linestring_2d/convex_hull.rs | 28 +++-------------------------
 1 file changed, 3 insertions(+), 25 deletions(-)

diff --git a/src/linestring_2d/convex_hull.rs b/src/linestring_2d/convex_hull.rs
index db3ff18..d64674d 100644
--- a/src/linestring_2d/convex_hull.rs
+++ b/src/linestring_2d/convex_hull.rs
@@ -900,9 +900,9 @@ struct VertexIndex {
 /// We keep track of from what list the start_point, point_on_hull and endpoint comes from.
 /// The algorithm is like gift-wrapping in that it keeps `point_on_hull` and `end_point` and iterates
 /// though a list of `j` candidates to try to find a better end-point.
-/// First it picks `end_point` to be from `ìndices_a`, then it iterates over `ìndices_b` trying to
-/// find a better `end_point`. If an end point is found in `ìndices_b` but another invalid one is
-/// found the inner loop ends.
+/// First it picks `end_point` to be the next point of the list that `point_on_hull` came from, then it
+/// iterates over all of the other list trying to find a better `end_point`. That list can start anywhere
+/// on its hull, so a worse candidate after a better one does not mean that the best one has been found.
 fn combine_indexed_convex_hull<T: GenericVector2>(
     vertices: &[T],
     indices_a: Result<Vec<usize>, LinestringError>,
@@ -986,9 +986,6 @@ fn combine_indexed_convex_hull<T: GenericVector2>(
         );*/
 
         if point_on_hull.from_a {
-            // when we have found a good end_point from indices_b and we find a bad one, we can
-            // exit the loop
-            let mut found_a_legit_b_point = false;
             for (jj, j) in indices_b.iter().enumerate() {
                 let j = *j;
 
@@ -1008,7 +1005,6 @@ fn combine_indexed_convex_hull<T: GenericVector2>(
                     end_point.index_index = jj;
                     end_point.index = j;
                     end_point.from_a = false;
-                    found_a_legit_b_point = true;
                 } else if orient == Orientation::Collinear {
                     let distance_sq_candidate =
                         vertices[point_on_hull.index].distance_sq(vertices[j]);
@@ -1021,23 +1017,13 @@ fn combine_indexed_convex_hull<T: GenericVector2>(
                         end_point.index_index = jj;
                         end_point.index = j;
                         end_point.from_a = false;
-                        found_a_legit_b_point = true;
                     } else if j != starting_index.index {
                         // This is a collinear point that is closer to the current point, mark it as visited
                         //let _ = visited.insert(j);
                     }
-                } else {
-                    // we should have a test here to see if we can end the loop.
-                    // if we only knew that end_point was a legit point
-                    if found_a_legit_b_point {
-                        break;
-                    }
                 }
             }
         } else {
-            // when we have found a good end_point from indices_a and we find a bad one, we can
-            // exit the loop
-            let mut found_a_legit_a_point = false;
             for (jj, j) in indices_a.iter().enumerate() {
                 let j = *j;
 
@@ -1057,7 +1043,6 @@ fn combine_indexed_convex_hull<T: GenericVector2>(
                     end_point.index_index = jj;
                     end_point.index = j;
                     end_point.from_a = true;
-                    found_a_legit_a_point = true;
                 } else if orient == Orientation::Collinear {
                     let distance_sq_candidate =
                         vertices[point_on_hull.index].distance_sq(vertices[j]);
@@ -1070,17 +1055,10 @@ fn combine_indexed_convex_hull<T: GenericVector2>(
                         end_point.index_index = jj;
                         end_point.index = j;
                         end_point.from_a = true;
-                        found_a_legit_a_point = true;
                     } else if j != starting_index.index {
                         // This is a collinear point that is closer to the current point, mark it as visited
                         //let _ = visited.insert(j);
                     }
-                } else {
-                    // we should have a test here to see if we can end the loop.
-                    // if we only knew that end_point was a legit point
-                    if found_a_legit_a_point {
-                        break;
-                    }
                 }
             }
         }
-- 
2.43.0


From 82d3bd967c9b1d983414b9b5b520e8a91e70db84 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:05:28 +0000
Subject: [PATCH 11/11] fix: number lines added by further
 with_lines/with_edges calls after the existing ones

---
 src/linestring_2d/indexed_intersection.rs | 4 +++-
 src/linestring_2d/intersection.rs         | 4 +++-
 2 files changed, 6 insertions(+), 2 deletions(-)

diff --git a/src/linestring_2d/indexed_intersection.rs b/src/linestring_2d/indexed_intersection.rs
index d6c41d2..c7fa379 100644
--- a/src/linestring_2d/indexed_intersection.rs
+++ b/src/linestring_2d/indexed_intersection.rs
@@ -505,7 +505,9 @@ impl<T: GenericVector2> IntersectionTester<T> {
             LinestringError::InternalError("with_lines() could not take 'site_events'".to_string())
         })?;
 
-        for (index, aline) in input_iter.into_iter().enumerate() {
+        for aline in input_iter {
+            // lines may already have been added by an earlier call
+            let index = self.lines.len();
             let mut start_index = aline.0;
             let mut start = self.vertices[start_index];
             let mut end_index = aline.1;
diff --git a/src/linestring_2d/intersection.rs b/src/linestring_2d/intersection.rs
index e1fa8c3..4094492 100644
--- a/src/linestring_2d/intersection.rs
+++ b/src/linestring_2d/intersection.rs
@@ -455,7 +455,9 @@ impl<T: GenericVector2> IntersectionData<T> {
             LinestringError::InternalError("with_lines() could not take 'site_events'".to_string())
         })?;
 
-        for (index, mut aline) in input_iter.enumerate() {
+        for mut aline in input_iter {
+            // lines may already have been added by an earlier call
+            let index = self.lines.len();
             if !(aline.start.x().is_finite()
                 && aline.start.y().is_finite()
                 && aline.end.x().is_finite()
-- 
2.43.0

