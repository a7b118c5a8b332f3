From 06d122d6f91fcac8cd3456d08ea9677f0a100479 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:50:02 +0000
Subject: [PATCH 01/22] fix: octagonal envelopes honour null envelopes

---
 src/core/geom/octagonal_envelope.rs | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/src/core/geom/octagonal_envelope.rs b/src/core/geom/octagonal_envelope.rs
index 159b1fe..fbe9804 100644
--- a/src/core/geom/octagonal_envelope.rs
+++ b/src/core/geom/octagonal_envelope.rs
@@ -193,6 +193,10 @@ impl OctagonalEnvelope {
     }
 
     pub fn expand_to_include_envelope(&mut self, env: &Envelope) {
+        if env.is_null() {
+            return;
+        }
+
         self.expand_to_include_xy(env.get_min_x(), env.get_min_y());
         self.expand_to_include_xy(env.get_min_x(), env.get_max_y());
         self.expand_to_include_xy(env.get_max_x(), env.get_min_y());
@@ -309,6 +313,10 @@ impl OctagonalEnvelope {
     }
 
     pub fn intersects_coordinate(&self, p: &Coordinate) -> bool {
+        if self.is_null() {
+            return false;
+        }
+
         if self.min_x > p.x {
             return false;
         }
-- 
2.43.0


From 15181289326ca07ec64b17f2350c8591f0f873a3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:50:27 +0000
Subject: [PATCH 02/22] fix: DD::rint leaves its operand unchanged

---
 src/core/math/dd.rs | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/src/core/math/dd.rs b/src/core/math/dd.rs
index a672905..5a57888 100644
--- a/src/core/math/dd.rs
+++ b/src/core/math/dd.rs
@@ -753,13 +753,12 @@ impl DD {
      *
      * @return this value rounded to the nearest integer
      */
-    pub fn rint(&mut self) -> DD {
+    pub fn rint(&self) -> DD {
         if self.is_nan() {
             return self.copy_self();
         }
         // may not be 100% correct
-        self.self_add_f64(0.5);
-        return self.floor();
+        return self.add_f64(0.5).floor();
     }
 
     /**
-- 
2.43.0


From 9c10639881d18a975f8844e53594e56c71c38fb9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:50:27 +0000
Subject: [PATCH 03/22] fix: DD::magnitude handles magnitudes outside the i32
 range

---
 src/core/math/dd.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/core/math/dd.rs b/src/core/math/dd.rs
index 5a57888..6ba910a 100644
--- a/src/core/math/dd.rs
+++ b/src/core/math/dd.rs
@@ -1348,8 +1348,8 @@ impl DD {
         // in the computed magnitude.
         // Following tests that magnitude is correct, and adjusts it if not
 
-        let x_approx = i32::pow(10, x_mag as u32);
-        if x_approx * 10 <= x_abs as i32 {
+        let x_approx = f64::powi(10., x_mag);
+        if x_approx * 10. <= x_abs {
             x_mag += 1;
         }
 
-- 
2.43.0


From d09d69e77fa5f55f31e1de60661c0bb0a9eb5623 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:54:46 +0000
Subject: [PATCH 04/22] fix: coordinate array sequences address the measure by
 ordinate index

---
 .../geom/implementation/coordinate_array_sequence.rs   | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/src/core/geom/implementation/coordinate_array_sequence.rs b/src/core/geom/implementation/coordinate_array_sequence.rs
index f8ff2d6..5e48ceb 100644
--- a/src/core/geom/implementation/coordinate_array_sequence.rs
+++ b/src/core/geom/implementation/coordinate_array_sequence.rs
@@ -257,6 +257,12 @@ impl CoordinateArraySequence {
         return self.get_measures() > 0;
     }
 
+    /// Tests whether an ordinate index addresses the measure,
+    /// which follows the spatial ordinates.
+    fn is_measure_ordinate(&self, ordinate_index: i32) -> bool {
+        return self.has_m() && ordinate_index == self.get_dimension() - self.get_measures();
+    }
+
     /**
      * @see org.locationtech.jts.geom.CoordinateSequence#getZ(int)
      */
@@ -286,6 +292,9 @@ impl CoordinateArraySequence {
         match ordinate_index {
             CoordinateArraySequence::X => return self.coordinates[index].x,
             CoordinateArraySequence::Y => return self.coordinates[index].y,
+            _ if self.is_measure_ordinate(ordinate_index) => {
+                return self.coordinates[index].get_m()
+            }
             _ => {
                 let ord = self.coordinates[index].get_ordinate(ordinate_index as i32);
                 match ord {
@@ -330,6 +339,7 @@ impl CoordinateArraySequence {
         match ordinate_index {
             CoordinateArraySequence::X => self.coordinates[index].x = value,
             CoordinateArraySequence::Y => self.coordinates[index].y = value,
+            _ if self.is_measure_ordinate(ordinate_index) => self.coordinates[index].set_m(value),
             _ => self.coordinates[index].set_ordinate(ordinate_index, value),
         }
     }
-- 
2.43.0


From d60de55789088c311e86dcf4464708c5d1872a03 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:55:47 +0000
Subject: [PATCH 05/22] fix: MathUtil::shuffle builds the index list instead of
 indexing an empty one

---
 src/core/util/math_util.rs | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/core/util/math_util.rs b/src/core/util/math_util.rs
index 948e21c..ff302cc 100644
--- a/src/core/util/math_util.rs
+++ b/src/core/util/math_util.rs
@@ -189,16 +189,16 @@ impl MathUtil {
     pub fn shuffle(n: usize) -> Vec<i32> {
         let mut ints: Vec<i32> = vec![];
         for i in 0..n {
-            ints[i] = i as i32;
+            ints.push(i as i32);
         }
 
-        let mut i = n - 1;
-        while i >= 1 {
+        let mut i = n;
+        while i > 1 {
+            i = i - 1;
             let j = rand::thread_rng().gen_range(0..i + 1);
             let last = ints[i];
             ints[i] = ints[j];
             ints[j] = last;
-            i = i - 1;
         }
 
         return ints;
-- 
2.43.0


From 5b57776182dd003d306e8d1f2999114b968bbd10 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:55:47 +0000
Subject: [PATCH 06/22] fix: Matrix::solve no longer underflows its descending
 indices

---
 src/core/math/matrix.rs | 13 ++++++-------
 1 file changed, 6 insertions(+), 7 deletions(-)

diff --git a/src/core/math/matrix.rs b/src/core/math/matrix.rs
index 8de9085..eb4fac0 100644
--- a/src/core/math/matrix.rs
+++ b/src/core/math/matrix.rs
@@ -73,10 +73,10 @@ impl Matrix {
             let mut j = i + 1;
             while j < n {
                 let row_factor = a[j][i] / a[i][i];
-                let mut k = n - 1;
-                while k >= i {
-                    a[j][k] -= a[i][k] * row_factor;
+                let mut k = n;
+                while k > i {
                     k -= 1;
+                    a[j][k] -= a[i][k] * row_factor;
                 }
                 b[j] -= b[i] * row_factor;
                 j += 1;
@@ -86,9 +86,9 @@ impl Matrix {
         // A is now (virtually) in upper-triangular form.
         // The solution vector is determined by back-substitution.
         let mut solution: Vec<f64> = vec![f64::NAN; n];
-        let mut j = n - 1;
-        #[allow(unused_comparisons)]
-        while j >= 0 {
+        let mut j = n;
+        while j > 0 {
+            j -= 1;
             let mut t = 0.0;
             let mut k = j + 1;
             while k < n {
@@ -96,7 +96,6 @@ impl Matrix {
                 k += 1;
             }
             solution[j] = (b[j] - t) / a[j][j];
-            j -= 1;
         }
         return Some(solution);
     }
-- 
2.43.0


From 4cb74bace842217050d2b56cbcaa93146a9f501c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:55:47 +0000
Subject: [PATCH 07/22] fix: CoordinateList adds coordinates in reverse order
 without leaving the index range

---
 src/core/geom/coordinate_list.rs | 15 +++++++--------
 1 file changed, 7 insertions(+), 8 deletions(-)

diff --git a/src/core/geom/coordinate_list.rs b/src/core/geom/coordinate_list.rs
index 6151c51..0c1a73b 100644
--- a/src/core/geom/coordinate_list.rs
+++ b/src/core/geom/coordinate_list.rs
@@ -63,15 +63,15 @@ impl CoordinateList {
         start: usize,
         end: usize,
     ) -> bool {
-        let mut inc: i32 = 1;
-        if start > end {
-            inc = -1;
-        }
 
         let mut i = start;
         while i != end {
             self.add_coordinate_repeated(coord_list[i], allow_repeated);
-            i += inc as usize
+            if start > end {
+                i -= 1;
+            } else {
+                i += 1;
+            }
         }
         return true;
     }
@@ -95,10 +95,9 @@ impl CoordinateList {
             }
         } else {
             let mut i = coord_list.len();
-            #[allow(unused_comparisons)]
-            while i >= 0 {
-                self.add_coordinate_repeated(coord_list[i], allow_repeated);
+            while i > 0 {
                 i -= 1;
+                self.add_coordinate_repeated(coord_list[i], allow_repeated);
             }
         }
         return true;
-- 
2.43.0


From a2bd1949b538de03fbba45e47c42ca5e38426846 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:56:04 +0000
Subject: [PATCH 08/22] fix: CoordinateArrays::extract returns the inclusive,
 clamped subsequence

---
 src/core/geom/coordinate_arrays.rs | 30 +++++-------------------------
 1 file changed, 5 insertions(+), 25 deletions(-)

diff --git a/src/core/geom/coordinate_arrays.rs b/src/core/geom/coordinate_arrays.rs
index bd031be..661a061 100644
--- a/src/core/geom/coordinate_arrays.rs
+++ b/src/core/geom/coordinate_arrays.rs
@@ -1,4 +1,3 @@
-use crate::core::util::math_util::MathUtil;
 
 use super::{coordinate::Coordinate, coordinate_list::CoordinateList, coordinates::Coordinates, envelope::Envelope};
 
@@ -663,31 +662,12 @@ impl CoordinateArrays {
      * @param end   the index of the end of the subsequence to extract
      * @return a subsequence of the input array
      */
-    pub fn extract(pts: &Vec<Coordinate>, mut start: usize, mut end: usize) -> Vec<Coordinate> {
-        start = MathUtil::clamp_i32(start as i32, 0, pts.len() as i32) as usize;
-        end = MathUtil::clamp_i32(end as i32, -1, pts.len() as i32) as usize;
-
-        let mut npts = end - start + 1;
-        #[allow(unused_comparisons)]
-        if end < 0 {
-            npts = 0;
-        }
-        if start >= pts.len() {
-            npts = 0;
-        }
-        if end < start {
-            npts = 0;
-        }
-
+    pub fn extract(pts: &Vec<Coordinate>, start: usize, end: usize) -> Vec<Coordinate> {
         let mut extract_pts: Vec<Coordinate> = vec![];
-        if npts == 0 {
-            return extract_pts;
-        }
-
-        let mut i_pts = 0;
-        for i in start..end {
-            i_pts = i_pts + 1;
-            extract_pts[i_pts] = pts[i];
+        let mut i = start;
+        while i <= end && i < pts.len() {
+            extract_pts.push(pts[i]);
+            i += 1;
         }
         return extract_pts;
     }
-- 
2.43.0


From ec446e0b38fa0db531c90a984ba8ced13b5f565f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:56:04 +0000
Subject: [PATCH 09/22] fix: packed sequences can be built from coordinates

---
 .../packed_coordinate_sequence_double.rs      | 62 ++++---------------
 1 file changed, 13 insertions(+), 49 deletions(-)

diff --git a/src/core/geom/implementation/packed_coordinate_sequence_double.rs b/src/core/geom/implementation/packed_coordinate_sequence_double.rs
index ce54334..d7acd6c 100644
--- a/src/core/geom/implementation/packed_coordinate_sequence_double.rs
+++ b/src/core/geom/implementation/packed_coordinate_sequence_double.rs
@@ -80,27 +80,11 @@ impl PackedCoordinateSequenceDouble {
      * @param dimension the total number of ordinates that make up a {@link Coordinate} in this sequence.
      */
     pub fn new_coordinates_with_dimension(coordinates: &Vec<Coordinate>, dimension: i32) -> Self {
-        let mut new = Self {
+        PackedCoordinateSequenceDouble::new_coordinates_with_dimension_measures(
+            coordinates,
             dimension,
-            measures: i32::max(0, dimension - 3),
-            coords: vec![],
-        };
-
-        for i in 0..coordinates.len() {
-            let offset = i * dimension as usize;
-            new.coords[offset] = coordinates[i].x;
-            new.coords[offset + 1] = coordinates[i].y;
-            if dimension >= 3 {
-                new.coords[offset + 2] = coordinates[i].get_ordinate(2).unwrap();
-                // Z or M
-            }
-            if dimension >= 4 {
-                new.coords[offset + 3] = coordinates[i].get_ordinate(3).unwrap();
-                // M
-            }
-        }
-
-        new
+            i32::max(0, dimension - 3),
+        )
     }
 
     /**
@@ -115,23 +99,23 @@ impl PackedCoordinateSequenceDouble {
         dimension: i32,
         measures: i32,
     ) -> Self {
-        let mut new = Self {
+        let mut new = PackedCoordinateSequenceDouble::new_with_size_dimension_measures(
+            coordinates.len(),
             dimension,
             measures,
-            coords: vec![],
-        };
+        );
 
         for i in 0..coordinates.len() {
             let offset = i * dimension as usize;
             new.coords[offset] = coordinates[i].x;
             new.coords[offset + 1] = coordinates[i].y;
-            if dimension >= 3 {
-                new.coords[offset + 2] = coordinates[i].get_ordinate(2).unwrap();
-                // Z or M
+            if dimension == 3 && measures == 1 {
+                new.coords[offset + 2] = coordinates[i].get_m();
+            } else if dimension >= 3 {
+                new.coords[offset + 2] = coordinates[i].get_z();
             }
             if dimension >= 4 {
-                new.coords[offset + 3] = coordinates[i].get_ordinate(3).unwrap();
-                // M
+                new.coords[offset + 3] = coordinates[i].get_m();
             }
         }
 
@@ -144,27 +128,7 @@ impl PackedCoordinateSequenceDouble {
      * @param coordinates an array of {@link Coordinate}s
      */
     pub fn new_with_coordinates(coordinates: &Vec<Coordinate>) -> Self {
-        let mut new = Self {
-            dimension: 3,
-            measures: 0,
-            coords: vec![],
-        };
-
-        for i in 0..coordinates.len() {
-            let offset = i * new.dimension as usize;
-            new.coords[offset] = coordinates[i].x;
-            new.coords[offset + 1] = coordinates[i].y;
-            if new.dimension >= 3 {
-                new.coords[offset + 2] = coordinates[i].get_ordinate(2).unwrap();
-                // Z or M
-            }
-            if new.dimension >= 4 {
-                new.coords[offset + 3] = coordinates[i].get_ordinate(3).unwrap();
-                // M
-            }
-        }
-
-        new
+        PackedCoordinateSequenceDouble::new_coordinates_with_dimension_measures(coordinates, 3, 0)
     }
 
     /**
-- 
2.43.0


From afdfd31fe2b616a0da4217e555b4fa285b9e7572 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:56:22 +0000
Subject: [PATCH 10/22] fix: closing and extending sequences keeps their
 measures

---
 src/core/geom/coordinate_array_sequences.rs  | 12 ++++++++++--
 src/core/geom/packed_coordinate_sequences.rs | 12 ++++++++++--
 2 files changed, 20 insertions(+), 4 deletions(-)

diff --git a/src/core/geom/coordinate_array_sequences.rs b/src/core/geom/coordinate_array_sequences.rs
index b2454bd..eda9c36 100644
--- a/src/core/geom/coordinate_array_sequences.rs
+++ b/src/core/geom/coordinate_array_sequences.rs
@@ -156,7 +156,11 @@ impl CoordinateArraySequences {
         size: usize,
     ) -> CoordinateArraySequence {
         let mut newseq =
-            CoordinateArraySequenceFactory::create_with_size_dimension(size, seq.get_dimension());
+            CoordinateArraySequenceFactory::create_with_size_dimension_measures(
+                size,
+                seq.get_dimension(),
+                seq.get_measures(),
+            );
         let n = seq.size();
         CoordinateArraySequences::copy(seq, 0, &mut newseq, 0, n);
         // fill remaining coordinates with start point
@@ -168,7 +172,11 @@ impl CoordinateArraySequences {
 
     pub fn extend(seq: &CoordinateArraySequence, size: usize) -> CoordinateArraySequence {
         let mut newseq =
-            CoordinateArraySequenceFactory::create_with_size_dimension(size, seq.get_dimension());
+            CoordinateArraySequenceFactory::create_with_size_dimension_measures(
+                size,
+                seq.get_dimension(),
+                seq.get_measures(),
+            );
         let n = seq.size();
         CoordinateArraySequences::copy(seq, 0, &mut newseq, 0, n);
         // fill remaining coordinates with end point, if it exists
diff --git a/src/core/geom/packed_coordinate_sequences.rs b/src/core/geom/packed_coordinate_sequences.rs
index c1c4ff8..37cb00a 100644
--- a/src/core/geom/packed_coordinate_sequences.rs
+++ b/src/core/geom/packed_coordinate_sequences.rs
@@ -158,7 +158,11 @@ impl PackedCoordinateSequences {
         size: usize,
     ) -> PackedCoordinateSequenceDouble {
         let mut newseq =
-            PackedCoordinateSequenceFactory::create_with_size_dimension(size, seq.get_dimension());
+            PackedCoordinateSequenceFactory::create_with_size_dimension_measures(
+                size,
+                seq.get_dimension(),
+                seq.get_measures(),
+            );
         let n = seq.size();
         PackedCoordinateSequences::copy(seq, 0, &mut newseq, 0, n);
         // fill remaining coordinates with start point
@@ -173,7 +177,11 @@ impl PackedCoordinateSequences {
         size: usize,
     ) -> PackedCoordinateSequenceDouble {
         let mut newseq =
-            PackedCoordinateSequenceFactory::create_with_size_dimension(size, seq.get_dimension());
+            PackedCoordinateSequenceFactory::create_with_size_dimension_measures(
+                size,
+                seq.get_dimension(),
+                seq.get_measures(),
+            );
         let n = seq.size();
         PackedCoordinateSequences::copy(seq, 0, &mut newseq, 0, n);
         // fill remaining coordinates with end point, if it exists
-- 
2.43.0


From c7d723ab8f68684771fd4da44474d1c44e85de12 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:56:59 +0000
Subject: [PATCH 11/22] fix: MultiPoint::get_point_at_index accepts exactly the
 valid indices

---
 src/core/geom/multi_point.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/core/geom/multi_point.rs b/src/core/geom/multi_point.rs
index b9809ce..2e6033e 100644
--- a/src/core/geom/multi_point.rs
+++ b/src/core/geom/multi_point.rs
@@ -221,7 +221,7 @@ impl MultiPoint {
     }
 
     pub fn get_point_at_index(&self, index: usize) -> Option<Point> {
-        if self.points.len() == 0 || self.points.len() < index - 1 {
+        if index >= self.points.len() {
             return None;
         }
         return Some(self.points[index].copy());
-- 
2.43.0


From e0feb1739ca79fb3f88e88798e256f2d5a7eb191 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:56:59 +0000
Subject: [PATCH 12/22] fix: copying and reversing geometries keeps their
 components

---
 src/core/geom/multi_line_string.rs | 6 +++---
 src/core/geom/multi_point.rs       | 4 ++--
 src/core/geom/multi_polygon.rs     | 4 ++--
 src/core/geom/polygon.rs           | 2 +-
 4 files changed, 8 insertions(+), 8 deletions(-)

diff --git a/src/core/geom/multi_line_string.rs b/src/core/geom/multi_line_string.rs
index e89b9f9..5bdf377 100644
--- a/src/core/geom/multi_line_string.rs
+++ b/src/core/geom/multi_line_string.rs
@@ -130,8 +130,8 @@ impl MultiLineString {
 
     fn reverse_internal(&self) -> MultiLineString {
         let mut line_strings: Vec<LineString> = vec![];
-        for i in 0..line_strings.len() {
-            line_strings[i] = self.line_strings[i].reverse();
+        for i in 0..self.line_strings.len() {
+            line_strings.push(self.line_strings[i].reverse());
         }
         return MultiLineString::new_with_line_strings(&line_strings);
     }
@@ -139,7 +139,7 @@ impl MultiLineString {
     pub fn copy_internal(&self) -> MultiLineString {
         let mut line_strings: Vec<LineString> = vec![];
         for i in 0..self.line_strings.len() {
-            line_strings[i] = self.line_strings[i].copy();
+            line_strings.push(self.line_strings[i].copy());
         }
         return MultiLineString::new_with_line_strings(&line_strings);
     }
diff --git a/src/core/geom/multi_point.rs b/src/core/geom/multi_point.rs
index 2e6033e..1901f4c 100644
--- a/src/core/geom/multi_point.rs
+++ b/src/core/geom/multi_point.rs
@@ -136,7 +136,7 @@ impl MultiPoint {
     fn reverse_internal(&self) -> MultiPoint {
         let mut points: Vec<Point> = vec![];
         for i in 0..self.points.len() {
-            points[i] = self.points[i].copy();
+            points.push(self.points[i].copy());
         }
         return MultiPoint::new_with_points(&points);
     }
@@ -263,7 +263,7 @@ impl MultiPoint {
     pub fn copy(&self) -> MultiPoint {
         let mut points: Vec<Point> = vec![];
         for i in 0..self.points.len() {
-            points[i] = self.points[i].copy();
+            points.push(self.points[i].copy());
         }
         return MultiPoint::new_with_points(&points);
     }
diff --git a/src/core/geom/multi_polygon.rs b/src/core/geom/multi_polygon.rs
index 7bd921c..e85cf96 100644
--- a/src/core/geom/multi_polygon.rs
+++ b/src/core/geom/multi_polygon.rs
@@ -205,7 +205,7 @@ impl MultiPolygon {
     fn reverse_internal(&self) -> MultiPolygon {
         let mut polygons: Vec<Polygon> = vec![];
         for i in 0..self.polygons.len() {
-            polygons[i] = self.polygons[i].reverse();
+            polygons.push(self.polygons[i].reverse());
         }
         return MultiPolygon::new_with_polygons(&polygons);
     }
@@ -217,7 +217,7 @@ impl MultiPolygon {
     fn copy_internal(&self) -> MultiPolygon {
         let mut polygons: Vec<Polygon> = vec![];
         for i in 0..self.polygons.len() {
-            polygons[i] = self.polygons[i].copy();
+            polygons.push(self.polygons[i].copy());
         }
         return MultiPolygon::new_with_polygons(&polygons);
     }
diff --git a/src/core/geom/polygon.rs b/src/core/geom/polygon.rs
index dd3ceb1..8d518c6 100644
--- a/src/core/geom/polygon.rs
+++ b/src/core/geom/polygon.rs
@@ -473,7 +473,7 @@ impl Polygon {
         let shell = self.get_exterior_ring().reverse();
         let mut holes: Vec<LinearRing> = vec![];
         for i in 0..self.get_num_interior_ring() {
-            holes[i] = self.get_interior_ring_n(i).reverse();
+            holes.push(self.get_interior_ring_n(i).reverse());
         }
 
         return GeometryFactory::create_polygon_with_linear_ring_vec(&shell, &holes);
-- 
2.43.0


From 83a760c3d17aea6fb05b2c5a8757a8db75b474a4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:57:26 +0000
Subject: [PATCH 13/22] fix: a multi point of empty points is empty and has no
 coordinates

---
 src/core/geom/multi_point.rs | 13 ++++++++-----
 1 file changed, 8 insertions(+), 5 deletions(-)

diff --git a/src/core/geom/multi_point.rs b/src/core/geom/multi_point.rs
index 1901f4c..b51373b 100644
--- a/src/core/geom/multi_point.rs
+++ b/src/core/geom/multi_point.rs
@@ -55,7 +55,12 @@ impl MultiPoint {
     }
 
     pub fn is_empty(&self) -> bool {
-        return self.points.len() == 0;
+        for i in 0..self.points.len() {
+            if !self.points[i].is_empty() {
+                return false;
+            }
+        }
+        return true;
     }
 
     pub fn get_num_points(&self) -> usize {
@@ -248,13 +253,11 @@ impl MultiPoint {
      * @return the collected coordinates
      *    */
     pub fn get_coordinates(&self) -> Vec<Coordinate> {
-        let mut coordinates: Vec<Coordinate> = vec![Coordinate::default(); self.get_num_points()];
-        let mut k: i32 = -1;
+        let mut coordinates: Vec<Coordinate> = vec![];
         for i in 0..self.points.len() {
             let child_coordinates = self.points[i].get_coordinates();
             for j in 0..child_coordinates.len() {
-                k += 1;
-                coordinates[k as usize] = child_coordinates[j];
+                coordinates.push(child_coordinates[j]);
             }
         }
         return coordinates;
-- 
2.43.0


From d2a03f3bab4d1812af30bf9c6b82cf5a581a5b47 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:57:26 +0000
Subject: [PATCH 14/22] fix: normalizing a polygon normalizes its rings

---
 src/core/geom/polygon.rs | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/src/core/geom/polygon.rs b/src/core/geom/polygon.rs
index 8d518c6..d08a35f 100644
--- a/src/core/geom/polygon.rs
+++ b/src/core/geom/polygon.rs
@@ -428,12 +428,12 @@ impl Polygon {
     }
 
     pub fn normalized(&self, ring: &LinearRing, clockwise: bool) -> LinearRing {
-        let res = ring.copy();
-        Polygon::normalize(&res, clockwise);
+        let mut res = ring.copy();
+        Polygon::normalize(&mut res, clockwise);
         return res;
     }
 
-    pub fn normalize(ring: &LinearRing, clockwise: bool) {
+    pub fn normalize(ring: &mut LinearRing, clockwise: bool) {
         if ring.is_empty() {
             return;
         }
@@ -452,6 +452,7 @@ impl Polygon {
         if Orientation::is_ccw_coordinate_array_sequence(&seq) == clockwise {
             CoordinateArraySequences::reverse(&mut seq);
         }
+        *ring = LinearRing::new_with_coordinate_array_sequence(&seq);
     }
 
     /**
-- 
2.43.0


From b9f94aba56ad6bd42b6dbee31e4f1ebaeda40059 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:57:26 +0000
Subject: [PATCH 15/22] fix: copies and reversals of geometries keep the
 precision model

---
 src/core/geom/multi_point.rs   | 8 ++++++--
 src/core/geom/multi_polygon.rs | 8 ++++++--
 src/core/geom/polygon.rs       | 8 ++++++--
 3 files changed, 18 insertions(+), 6 deletions(-)

diff --git a/src/core/geom/multi_point.rs b/src/core/geom/multi_point.rs
index b51373b..151d777 100644
--- a/src/core/geom/multi_point.rs
+++ b/src/core/geom/multi_point.rs
@@ -143,7 +143,9 @@ impl MultiPoint {
         for i in 0..self.points.len() {
             points.push(self.points[i].copy());
         }
-        return MultiPoint::new_with_points(&points);
+        let mut res = MultiPoint::new_with_points(&points);
+        res.precision_model = self.precision_model;
+        return res;
     }
 
     /**
@@ -268,7 +270,9 @@ impl MultiPoint {
         for i in 0..self.points.len() {
             points.push(self.points[i].copy());
         }
-        return MultiPoint::new_with_points(&points);
+        let mut res = MultiPoint::new_with_points(&points);
+        res.precision_model = self.precision_model;
+        return res;
     }
 
     pub fn get_type_code() -> i32 {
diff --git a/src/core/geom/multi_polygon.rs b/src/core/geom/multi_polygon.rs
index e85cf96..73fdf43 100644
--- a/src/core/geom/multi_polygon.rs
+++ b/src/core/geom/multi_polygon.rs
@@ -207,7 +207,9 @@ impl MultiPolygon {
         for i in 0..self.polygons.len() {
             polygons.push(self.polygons[i].reverse());
         }
-        return MultiPolygon::new_with_polygons(&polygons);
+        let mut res = MultiPolygon::new_with_polygons(&polygons);
+        res.precision_model = self.precision_model;
+        return res;
     }
 
     pub fn copy(&self) -> MultiPolygon {
@@ -219,7 +221,9 @@ impl MultiPolygon {
         for i in 0..self.polygons.len() {
             polygons.push(self.polygons[i].copy());
         }
-        return MultiPolygon::new_with_polygons(&polygons);
+        let mut res = MultiPolygon::new_with_polygons(&polygons);
+        res.precision_model = self.precision_model;
+        return res;
     }
 
     pub fn get_type_code(&self) -> i32 {
diff --git a/src/core/geom/polygon.rs b/src/core/geom/polygon.rs
index d08a35f..76e6424 100644
--- a/src/core/geom/polygon.rs
+++ b/src/core/geom/polygon.rs
@@ -345,7 +345,9 @@ impl Polygon {
         for i in 0..self.holes.len() {
             hole_copies.push(self.holes[i].copy());
         }
-        return Polygon::new_with_linear_ring_vec(&shell_copy, &hole_copies);
+        let mut res = Polygon::new_with_linear_ring_vec(&shell_copy, &hole_copies);
+        res.precision_model = self.precision_model;
+        return res;
     }
 
     // TODO: Implement ME!
@@ -477,7 +479,9 @@ impl Polygon {
             holes.push(self.get_interior_ring_n(i).reverse());
         }
 
-        return GeometryFactory::create_polygon_with_linear_ring_vec(&shell, &holes);
+        let mut res = GeometryFactory::create_polygon_with_linear_ring_vec(&shell, &holes);
+        res.precision_model = self.precision_model;
+        return res;
     }
 
     /**
-- 
2.43.0


From 21cea6665549240cf7cb79b3aba9e00b32d5f7f8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:58:31 +0000
Subject: [PATCH 16/22] fix: 3D segment distances handle degenerate segments
 and closest endpoints

---
 src/core/algorithm/cg_algorithms_3d.rs | 21 ++++++++++++---------
 1 file changed, 12 insertions(+), 9 deletions(-)

diff --git a/src/core/algorithm/cg_algorithms_3d.rs b/src/core/algorithm/cg_algorithms_3d.rs
index 193b50e..df427da 100644
--- a/src/core/algorithm/cg_algorithms_3d.rs
+++ b/src/core/algorithm/cg_algorithms_3d.rs
@@ -95,7 +95,7 @@ impl CGAlgorithms3D {
         if ac.equals_3d(bc) {
             return CGAlgorithms3D::distance_point_segment(ac, cc, dd);
         }
-        if cc.equals_3d(bc) {
+        if cc.equals_3d(dd) {
             return CGAlgorithms3D::distance_point_segment(cc, ac, bc);
         }
 
@@ -131,14 +131,17 @@ impl CGAlgorithms3D {
             s = (b * e - c * d) / denom;
             t = (a * e - b * d) / denom;
         }
-        if s < 0. {
-            return CGAlgorithms3D::distance_point_segment(ac, cc, dd);
-        } else if s > 1. {
-            return CGAlgorithms3D::distance_point_segment(bc, cc, dd);
-        } else if t < 0. {
-            return CGAlgorithms3D::distance_point_segment(cc, ac, bc);
-        } else if t > 1. {
-            return CGAlgorithms3D::distance_point_segment(dd, ac, bc);
+        if s < 0. || s > 1. || t < 0. || t > 1. {
+            // the closest points include an endpoint of one of the segments
+            let dist_ab = f64::min(
+                CGAlgorithms3D::distance_point_segment(ac, cc, dd),
+                CGAlgorithms3D::distance_point_segment(bc, cc, dd),
+            );
+            let dist_cd = f64::min(
+                CGAlgorithms3D::distance_point_segment(cc, ac, bc),
+                CGAlgorithms3D::distance_point_segment(dd, ac, bc),
+            );
+            return f64::min(dist_ab, dist_cd);
         }
         /*
          The closest points are in interiors of segments,
-- 
2.43.0


From 62be0bdf41ae9a0942eb9554cbe7673aaeafa213 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:58:31 +0000
Subject: [PATCH 17/22] fix: orientation and centroid accept empty rings

---
 src/core/algorithm/centroid.rs    | 6 +++---
 src/core/algorithm/orientation.rs | 3 +++
 2 files changed, 6 insertions(+), 3 deletions(-)

diff --git a/src/core/algorithm/centroid.rs b/src/core/algorithm/centroid.rs
index 8f0883d..a4ac99c 100644
--- a/src/core/algorithm/centroid.rs
+++ b/src/core/algorithm/centroid.rs
@@ -170,7 +170,7 @@ impl Centroid {
             self.set_area_base_point(&pts[0]);
         }
         let is_positive_area = !Orientation::is_ccw_vec(pts);
-        for i in 0..(pts.len() - 1) {
+        for i in 0..pts.len().saturating_sub(1) {
             if let Some(area_base_pt) = self.area_base_pt {
                 self.add_triangle(&area_base_pt, &pts[i], &pts[i + 1], is_positive_area);
             }
@@ -180,7 +180,7 @@ impl Centroid {
 
     pub fn add_hole(&mut self, pts: &Vec<Coordinate>) {
         let is_positive_area = Orientation::is_ccw_vec(pts);
-        for i in 0..(pts.len() - 1) {
+        for i in 0..pts.len().saturating_sub(1) {
             if let Some(area_base_pt) = self.area_base_pt {
                 self.add_triangle(&area_base_pt, &pts[i], &pts[i + 1], is_positive_area);
             }
@@ -233,7 +233,7 @@ impl Centroid {
      */
     pub fn add_line_segments(&mut self, pts: &Vec<Coordinate>) {
         let mut line_len = 0.0;
-        for i in 0..(pts.len() - 1) {
+        for i in 0..pts.len().saturating_sub(1) {
             let segment_len = pts[i].distance(&pts[i + 1]);
             if segment_len == 0.0 {
                 continue;
diff --git a/src/core/algorithm/orientation.rs b/src/core/algorithm/orientation.rs
index db06fd4..49268c6 100644
--- a/src/core/algorithm/orientation.rs
+++ b/src/core/algorithm/orientation.rs
@@ -125,6 +125,9 @@ impl Orientation {
      */
     pub fn is_ccw_coordinate_array_sequence(ring: &CoordinateArraySequence) -> bool {
         // # of points without closing endpoint
+        if ring.size() == 0 {
+            return false;
+        }
         let n_pts = ring.size() - 1;
         // return default value if ring is flat
         if n_pts < 3 {
-- 
2.43.0


From 52cf949edcbb1aeb72338582cd614cf5b917e338 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:58:53 +0000
Subject: [PATCH 18/22] fix: the single precision model rounds to single
 precision

---
 src/core/geom/precision_model.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/core/geom/precision_model.rs b/src/core/geom/precision_model.rs
index b173e39..51558de 100644
--- a/src/core/geom/precision_model.rs
+++ b/src/core/geom/precision_model.rs
@@ -320,8 +320,8 @@ impl PrecisionModel {
   	if f64::is_nan(val) { return val; }
   	
   	if self.model_type == PrecisionModelType::FloatingSingle {
-  		let float_single_val = val;
-  		return float_single_val;
+  		let float_single_val = val as f32;
+  		return float_single_val as f64;
   	}
 
   	if self.model_type == PrecisionModelType::Fixed {
-- 
2.43.0


From 6ffff6f185e68c6b9e07ded6bc026a74fa18c640 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:58:53 +0000
Subject: [PATCH 19/22] fix: precision models round ties asymmetrically as
 documented

---
 src/core/geom/precision_model.rs | 13 ++++++++++---
 1 file changed, 10 insertions(+), 3 deletions(-)

diff --git a/src/core/geom/precision_model.rs b/src/core/geom/precision_model.rs
index 51558de..e7e9950 100644
--- a/src/core/geom/precision_model.rs
+++ b/src/core/geom/precision_model.rs
@@ -291,7 +291,14 @@ impl PrecisionModel {
 //     return external;
 //   }
 
-//   /**
+//   /// Rounds to the nearest integer, ties rounding up.
+  fn round(val: f64) -> f64 {
+    let floor = f64::floor(val);
+    if val - floor >= 0.5 { return floor + 1.0; }
+    return floor;
+  }
+
+  /**
 //    *  Sets <code>external</code> to the external representation of <code>internal</code>.
 //    *
 //    *@param  internal  the original coordinate
@@ -326,10 +333,10 @@ impl PrecisionModel {
 
   	if self.model_type == PrecisionModelType::Fixed {
   	  if self.grid_size > 0. {
-  	    return f64::round(val / self.grid_size) * self.grid_size;
+  	    return PrecisionModel::round(val / self.grid_size) * self.grid_size;
   	  }
   	  else {
-  	    return f64::round(val * self.scale) / self.scale;
+  	    return PrecisionModel::round(val * self.scale) / self.scale;
   	  }
   	}
   	// modelType == FLOATING - no rounding necessary
-- 
2.43.0


From 5d08381b95546a97ab05c0eec0345f23c0620250 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:49:10 +0000
Subject: [PATCH 20/22] fix: angle normalisation takes the remainder first, so
 it ends for huge and infinite angles

---
 src/core/algorithm/angle.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/core/algorithm/angle.rs b/src/core/algorithm/angle.rs
index 687fa34..4f0ae5e 100644
--- a/src/core/algorithm/angle.rs
+++ b/src/core/algorithm/angle.rs
@@ -229,7 +229,7 @@ impl Angle {
      * @return an equivalent angle in the range (-Pi, Pi]
      */
     pub fn normalize(angle: f64) -> f64 {
-        let mut normalized_angle = angle;
+        let mut normalized_angle = angle % Angle::PI_TIMES_2;
         while normalized_angle > std::f64::consts::PI {
             normalized_angle -= Angle::PI_TIMES_2;
         }
@@ -259,7 +259,7 @@ impl Angle {
      * @return an equivalent positive angle
      */
     pub fn normalize_positive(angle: f64) -> f64 {
-        let mut normalized_pos_angle = angle;
+        let mut normalized_pos_angle = angle % Angle::PI_TIMES_2;
         if normalized_pos_angle < 0.0 {
             while normalized_pos_angle < 0.0 {
                 normalized_pos_angle += Angle::PI_TIMES_2;
-- 
2.43.0


From 5d7c42f7e19638990a0ef41b2d5d0469fd0db702 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:08:04 +0000
Subject: [PATCH 21/22] fix: has_repeated_or_invalid_points also tests the
 first coordinate

---
 src/core/geom/coordinate_arrays.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/core/geom/coordinate_arrays.rs b/src/core/geom/coordinate_arrays.rs
index 661a061..e1da658 100644
--- a/src/core/geom/coordinate_arrays.rs
+++ b/src/core/geom/coordinate_arrays.rs
@@ -401,11 +401,11 @@ impl CoordinateArrays {
      * @see Coordinate#isValid()
      */
     pub fn has_repeated_or_invalid_points(coord: &Vec<Coordinate>) -> bool {
-        for i in 1..coord.len() {
+        for i in 0..coord.len() {
             if !coord[i].is_valid() {
                 return true;
             }
-            if coord[i - 1].equals_2d(&coord[i]) {
+            if i > 0 && coord[i - 1].equals_2d(&coord[i]) {
                 return true;
             }
         }
-- 
2.43.0


From 8eb3f496b5524c72b7d2cc89b84b50b1cfd9a2f7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:15:14 +0000
Subject: [PATCH 22/22] fix: floating precision models equal models of their
 kind

---
 src/core/geom/precision_model.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/core/geom/precision_model.rs b/src/core/geom/precision_model.rs
index e7e9950..5e20369 100644
--- a/src/core/geom/precision_model.rs
+++ b/src/core/geom/precision_model.rs
@@ -356,7 +356,7 @@ impl PrecisionModel {
   }
 
   pub fn equals(&self, other: PrecisionModel) -> bool {
-    self.model_type == other.model_type && self.scale == other.scale
+    self.model_type == other.model_type && (self.is_floating() || self.scale == other.scale)
   }
 
   /**
-- 
2.43.0

