From f961972bac8dd8f2ea2dd95ae0bfc7992cb56fcf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:41:35 +0000
Subject: [PATCH 01/32] fix: blend the weight when adding a knot to a rational
 curve

try_add_knot left the weights of the affected control points untouched, so
adding a knot changed the shape of any curve with unequal weights.
---
 src/curve/nurbs_curve.rs | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/curve/nurbs_curve.rs b/src/curve/nurbs_curve.rs
index 0db13b7..b21eb10 100644
--- a/src/curve/nurbs_curve.rs
+++ b/src/curve/nurbs_curve.rs
@@ -1327,7 +1327,10 @@ where
                 &self.control_points[i0] - &self.control_points[i0 - 1]
             };
             let mut p = delta_control_point * (T::one() - a);
-            p[D::dim() - 1] = T::zero();
+            if i0 == 0 {
+                // there is no neighbor to blend the weight of the first control point with
+                p[D::dim() - 1] = T::zero();
+            }
             self.control_points[i0].coords -= p;
         }
 
-- 
2.43.0


From c9590feb568e24e1ae53c685df527eaf40a3d7a1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:42:33 +0000
Subject: [PATCH 02/32] fix: split at an existing interior knot

Splitting always inserted degree + 1 copies of the parameter, so at a knot that
is already there the first part ended with too many copies and evaluated to NaN
at its end.
---
 src/split/mod.rs | 21 +++++++++++++++++----
 1 file changed, 17 insertions(+), 4 deletions(-)

diff --git a/src/split/mod.rs b/src/split/mod.rs
index 8fde919..ee20163 100644
--- a/src/split/mod.rs
+++ b/src/split/mod.rs
@@ -3,6 +3,7 @@ use nalgebra::{allocator::Allocator, DefaultAllocator, DimName, DimNameDiff, Dim
 
 use crate::{
     curve::NurbsCurve,
+    knot::KnotVector,
     misc::{transpose_control_points, FloatingPoint},
     surface::{NurbsSurface, UVDirection},
 };
@@ -16,6 +17,16 @@ where
     fn try_split(&self, option: Self::Option) -> anyhow::Result<(Self, Self)>;
 }
 
+/// Number of times the parameter already occurs as a knot strictly inside the domain
+fn interior_multiplicity<T: FloatingPoint>(knots: &KnotVector<T>, degree: usize, u: T) -> usize {
+    let (start, end) = knots.domain(degree);
+    if start < u && u < end {
+        knots.iter().filter(|k| **k == u).count()
+    } else {
+        0
+    }
+}
+
 impl<T: FloatingPoint, D: DimName> Split for NurbsCurve<T, D>
 where
     DefaultAllocator: Allocator<D>,
@@ -42,12 +53,13 @@ where
     /// ```
     fn try_split(&self, u: T) -> anyhow::Result<(Self, Self)> {
         let u = self.knots().clamp(self.degree(), u);
-        let knots_to_insert = (0..=self.degree()).map(|_| u).collect_vec();
+        let mult = interior_multiplicity(self.knots(), self.degree(), u);
+        let knots_to_insert = (mult..=self.degree()).map(|_| u).collect_vec();
         let mut cloned = self.clone();
         cloned.try_refine_knot(knots_to_insert)?;
 
         let n = self.knots().len() - self.degree() - 2;
-        let s = self.knots().find_knot_span_index(n, self.degree(), u);
+        let s = self.knots().find_knot_span_index(n, self.degree(), u) - mult;
         let knots0 = cloned.knots().as_slice()[0..=(s + self.degree() + 1)].to_vec();
         let knots1 = cloned.knots().as_slice()[s + 1..].to_vec();
         let cpts0 = cloned.control_points()[0..=s].to_vec();
@@ -98,10 +110,11 @@ where
             }
         };
 
-        let knots_to_insert = (0..=degree).map(|_| option.parameter).collect_vec();
+        let mult = interior_multiplicity(knots, degree, option.parameter);
+        let knots_to_insert = (mult..=degree).map(|_| option.parameter).collect_vec();
 
         let n = knots.len() - degree - 2;
-        let s = knots.find_knot_span_index(n, degree, option.parameter);
+        let s = knots.find_knot_span_index(n, degree, option.parameter) - mult;
 
         let curves = points
             .iter()
-- 
2.43.0


From c643bccb43c128e4089bb0a6b7aa4d6ad90a98a1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:14:39 +0000
Subject: [PATCH 03/32] fix: locate a non-empty span when the domain's end knot
 is repeated inside it

---
 src/knot/knot_vector.rs | 27 +++++++++++++++------------
 1 file changed, 15 insertions(+), 12 deletions(-)

diff --git a/src/knot/knot_vector.rs b/src/knot/knot_vector.rs
index e69dede..7367962 100644
--- a/src/knot/knot_vector.rs
+++ b/src/knot/knot_vector.rs
@@ -156,12 +156,21 @@ impl<T: RealField + Copy> KnotVector<T> {
     /// assert_eq!(idx, 4);
     /// ```
     pub fn find_knot_span_index(&self, n: usize, degree: usize, u: T) -> usize {
-        if u > self[n + 1] - T::default_epsilon() {
-            return n;
+        // at the ends of the domain, skip the empty spans left by knots repeated inside the domain
+        if u >= self[n + 1] - T::default_epsilon() {
+            let mut span = n;
+            while span > degree && self[span] >= self[n + 1] {
+                span -= 1;
+            }
+            return span;
         }
 
-        if u < self[degree] + T::default_epsilon() {
-            return degree;
+        if u <= self[degree] + T::default_epsilon() {
+            let mut span = degree;
+            while span < n && self[span + 1] <= self[degree] {
+                span += 1;
+            }
+            return span;
         }
 
         // binary search
@@ -316,13 +325,10 @@ impl<T: RealField + Copy> KnotVector<T> {
         let mut bases = vec![];
         let mut knot_spans = vec![];
         let mut u = start;
-        let mut knot_index = self.find_knot_span_index(n, degree, u);
 
         // compute all of the basis functions
         for _i in 0..=divs {
-            while u >= self[knot_index + 1] && knot_index < n {
-                knot_index += 1;
-            }
+            let knot_index = self.find_knot_span_index(n, degree, u);
             knot_spans.push(knot_index);
             bases.push(self.basis_functions(knot_index, u, degree));
             u += span;
@@ -343,13 +349,10 @@ impl<T: RealField + Copy> KnotVector<T> {
         let mut bases = vec![];
         let mut knot_spans = vec![];
         let mut u = start;
-        let mut knot_index = self.find_knot_span_index(n, degree, u);
 
         // compute all of the basis functions
         for _i in 0..=divs {
-            while u >= self[knot_index + 1] && knot_index < n {
-                knot_index += 1;
-            }
+            let knot_index = self.find_knot_span_index(n, degree, u);
             knot_spans.push(knot_index);
             bases.push(self.derivative_basis_functions(knot_index, u, degree, n));
             u += span;
-- 
2.43.0


From af7665cbefa36647dd5734d1036ee5743ffa877a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:29:28 +0000
Subject: [PATCH 04/32] fix: pick the right control row for an isocurve at a
 repeated interior knot

The row was taken from the span of the unrefined knot vector, which is only
right for a simple knot, so an isocurve at an interior knot of multiplicity
two or more was a different curve.
---
 src/surface/nurbs_surface.rs | 18 +++++++++---------
 1 file changed, 9 insertions(+), 9 deletions(-)

diff --git a/src/surface/nurbs_surface.rs b/src/surface/nurbs_surface.rs
index 0b380f7..f17e502 100644
--- a/src/surface/nurbs_surface.rs
+++ b/src/surface/nurbs_surface.rs
@@ -781,16 +781,16 @@ where
             Cow::Borrowed(self)
         };
 
-        let span = if (t - knots.first()).abs() < T::default_epsilon() {
-            0
-        } else if (t - knots.last()).abs() < T::default_epsilon() {
-            match direction {
-                UVDirection::U => refined.control_points.len() - 1,
-                UVDirection::V => refined.control_points[0].len() - 1,
-            }
-        } else {
-            knots.find_knot_span_index(knots.len() - degree - 2, degree, t)
+        // the row of control points that the isocurve passes through follows the knots before t
+        let rows = match direction {
+            UVDirection::U => refined.control_points.len(),
+            UVDirection::V => refined.control_points[0].len(),
         };
+        let span = knots
+            .iter()
+            .filter(|k| t - **k >= T::default_epsilon())
+            .count()
+            .min(rows - 1);
 
         match direction {
             UVDirection::U => NurbsCurve::try_new(
-- 
2.43.0


From dfbdb6c9672ccf61d28eadd60b5d432e8f14aa2c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:29:57 +0000
Subject: [PATCH 05/32] fix: size the sampled surface derivatives by the
 requested order

The table was allocated with its indices swapped and cut to the degrees, so
regular_sample_derivatives panicked when the degrees differ or are exceeded.
---
 src/surface/nurbs_surface.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/surface/nurbs_surface.rs b/src/surface/nurbs_surface.rs
index f17e502..40423eb 100644
--- a/src/surface/nurbs_surface.rs
+++ b/src/surface/nurbs_surface.rs
@@ -330,7 +330,7 @@ where
         } else {
             self.v_degree
         };
-        let mut skl = vec![vec![OVector::<T, D>::zeros(); du + 1]; dv + 1];
+        let mut skl = vec![vec![OVector::<T, D>::zeros(); derivs + 1]; derivs + 1];
 
         for k in 0..=du {
             let mut temp = vec![];
-- 
2.43.0


From 121852013d633a8a3bd5b10e3adf818e347f0e96 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:44:14 +0000
Subject: [PATCH 06/32] fix: clamp the split parameter of a surface to its
 domain

A curve clamps it; a surface refined outside its domain and returned pieces
that are not parts of it.
---
 src/split/mod.rs | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/src/split/mod.rs b/src/split/mod.rs
index ee20163..6ce6f65 100644
--- a/src/split/mod.rs
+++ b/src/split/mod.rs
@@ -110,11 +110,12 @@ where
             }
         };
 
-        let mult = interior_multiplicity(knots, degree, option.parameter);
-        let knots_to_insert = (mult..=degree).map(|_| option.parameter).collect_vec();
+        let parameter = knots.clamp(degree, option.parameter);
+        let mult = interior_multiplicity(knots, degree, parameter);
+        let knots_to_insert = (mult..=degree).map(|_| parameter).collect_vec();
 
         let n = knots.len() - degree - 2;
-        let s = knots.find_knot_span_index(n, degree, option.parameter) - mult;
+        let s = knots.find_knot_span_index(n, degree, parameter) - mult;
 
         let curves = points
             .iter()
-- 
2.43.0


From 107947ac4ca242e2d017667ad2d61cc119fe8ebf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:51:17 +0000
Subject: [PATCH 07/32] fix: remove repeated knots

Removal started from the first instead of the last occurrence of the knot and
decided the odd steps with an unsigned difference, so no copy of a repeated
knot was ever removed.
---
 src/curve/nurbs_curve.rs | 13 ++++++++-----
 1 file changed, 8 insertions(+), 5 deletions(-)

diff --git a/src/curve/nurbs_curve.rs b/src/curve/nurbs_curve.rs
index b21eb10..5418085 100644
--- a/src/curve/nurbs_curve.rs
+++ b/src/curve/nurbs_curve.rs
@@ -1371,8 +1371,8 @@ where
         let r = self
             .knots
             .iter()
-            .position(|k| *k == knot)
-            .ok_or(anyhow::anyhow!("Knot not found"))?; // index of the knot
+            .rposition(|k| *k == knot)
+            .ok_or(anyhow::anyhow!("Knot not found"))?; // index of the last occurrence of the knot
 
         let multiplicities = self.knots.multiplicity();
         let mult = multiplicities
@@ -1388,6 +1388,9 @@ where
                 "Knot is too close to the start of the curve"
             ));
         }
+        if r > n {
+            return Err(anyhow::anyhow!("Knot is too close to the end of the curve"));
+        }
         let mut first = r - p;
 
         if r <= s {
@@ -1415,7 +1418,7 @@ where
             let mut ii = 1usize;
             let mut jj = idx_temp_right - 1;
 
-            while j >= i && (j - i) > t {
+            while j > i + t {
                 // compute new control points for one removal step
                 let alfi =
                     (knot - removed_knots[i]) / (removed_knots[i + ord + t] - removed_knots[i]);
@@ -1443,7 +1446,7 @@ where
             }
 
             // check if knot removable
-            let remove = if j >= i && (j - i) < t {
+            let remove = if j < i + t {
                 let left = &temp[ii - 1];
                 let right = &temp[jj + 1];
                 (left - right).norm() <= tolerance
@@ -1466,7 +1469,7 @@ where
 
             let mut i2 = first;
             let mut j2 = last;
-            while j2 >= i2 && (j2 - i2) > t {
+            while j2 > i2 + t {
                 removed_control_points[i2] = temp[i2 - off].clone();
                 removed_control_points[j2] = temp[j2 - off].clone();
 
-- 
2.43.0


From 9ade4b8c78af75dfeeb5fdb7bf3eba568edd8802 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:51:52 +0000
Subject: [PATCH 08/32] fix: make degree elevation work for increments above
 one and interior knots

The increment subtraction underflowed, the result kept unused trailing control
points and zero knots, and two index rules were mistranslated, so that elevation
panicked or gave an invalid curve.
---
 src/curve/nurbs_curve.rs | 30 +++++++++++++-----------------
 1 file changed, 13 insertions(+), 17 deletions(-)

diff --git a/src/curve/nurbs_curve.rs b/src/curve/nurbs_curve.rs
index 5418085..bceba2e 100644
--- a/src/curve/nurbs_curve.rs
+++ b/src/curve/nurbs_curve.rs
@@ -1110,7 +1110,8 @@ where
 
         //intermediate values
         let mut bezalfs = vec![vec![T::zero(); new_degree + 1]; new_degree + degree_inc + 1];
-        let new_control_point_count = control_points.len() + degree_inc + 3;
+        // every knot span of the curve adds degree_inc control points at most
+        let new_control_point_count = control_points.len() * (degree_inc + 1) + target_degree;
         let mut bpts = vec![OPoint::origin(); new_control_point_count];
         let mut e_bpts = vec![OPoint::origin(); new_control_point_count];
         let mut next_bpts = vec![OPoint::origin(); new_control_point_count];
@@ -1133,19 +1134,19 @@ where
         for i in 1..=ph2 {
             let inv = T::one() / binom.get(ph, i);
             let mpi = new_degree.min(i);
-            for j in 0.max(i - degree_inc)..=mpi {
+            for j in i.saturating_sub(degree_inc)..=mpi {
                 bezalfs[i][j] = inv * binom.get(new_degree, j) * binom.get(degree_inc, i - j);
             }
         }
 
         for i in (ph2 + 1)..ph {
             let mpi = new_degree.min(i);
-            for j in 0.max(i - degree_inc)..=mpi {
+            for j in i.saturating_sub(degree_inc)..=mpi {
                 bezalfs[i][j] = bezalfs[ph - i][new_degree - j];
             }
         }
 
-        let mh = ph;
+        let mut mh = ph;
         let mut kind = ph + 1;
         let mut r: isize = -1;
         let mut a = new_degree;
@@ -1165,7 +1166,7 @@ where
                 b += 1;
             }
             let mul = b - i + 1;
-            let _mh = mh + mul + degree_inc;
+            mh += mul + degree_inc;
             let ub = knots[b];
             let oldr = r;
             r = new_degree as isize - mul as isize;
@@ -1177,15 +1178,7 @@ where
             } else {
                 1
             };
-            let rbz = if r > 0 {
-                (T::from_usize(ph).unwrap()
-                    - T::from_isize(r + 1).unwrap() / T::from_f64(2.).unwrap())
-                .floor()
-                .to_usize()
-                .unwrap()
-            } else {
-                ph
-            };
+            let rbz = if r > 0 { ph - (r as usize + 1) / 2 } else { ph };
             if r > 0 {
                 let numer = ub - ua;
                 let mut alfs = vec![T::zero(); new_degree];
@@ -1209,7 +1202,7 @@ where
             for i in lbz..=ph {
                 e_bpts[i] = OPoint::origin();
                 let mpi = new_degree.min(i);
-                for j in 0.max(i - degree_inc)..=mpi {
+                for j in i.saturating_sub(degree_inc)..=mpi {
                     e_bpts[i].coords = &e_bpts[i].coords + &bpts[j].coords * bezalfs[i][j];
                 }
             }
@@ -1233,9 +1226,9 @@ where
                             if (j as isize) - tr <= (kind as isize - ph as isize + oldr) {
                                 let gam = (ub - u_h[j - utr]) / den;
                                 e_bpts[kj] = e_bpts[kj].lerp(&e_bpts[kj + 1], T::one() - gam);
+                            } else {
+                                e_bpts[kj] = e_bpts[kj].lerp(&e_bpts[kj + 1], T::one() - bet);
                             }
-                        } else {
-                            e_bpts[kj] = e_bpts[kj].lerp(&e_bpts[kj + 1], T::one() - bet);
                         }
                         i += 1;
                         j -= 1;
@@ -1274,6 +1267,9 @@ where
             }
         }
 
+        q_w.truncate(mh - ph);
+        u_h.truncate(mh + 1);
+
         Ok(Self {
             degree: target_degree,
             control_points: q_w,
-- 
2.43.0


From 222fd2ee2937b4f468d9c8b931504bbbbdd3cb1c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:52:43 +0000
Subject: [PATCH 09/32] fix: use the ellipse's own tangents for elliptic arcs

The tangents ignored the radii, so an arc of an ellipse that does not start and
end on its axes left the ellipse.
---
 src/curve/nurbs_curve.rs | 11 +++++++----
 1 file changed, 7 insertions(+), 4 deletions(-)

diff --git a/src/curve/nurbs_curve.rs b/src/curve/nurbs_curve.rs
index bceba2e..0056369 100644
--- a/src/curve/nurbs_curve.rs
+++ b/src/curve/nurbs_curve.rs
@@ -956,7 +956,9 @@ where
         let mut p0 = center
             + &x_axis * x_radius * start_angle.cos()
             + &y_axis * y_radius * start_angle.sin();
-        let mut t0 = &y_axis * start_angle.cos() - &x_axis * start_angle.sin();
+        let mut t0 = (&y_axis * y_radius * start_angle.cos()
+            - &x_axis * x_radius * start_angle.sin())
+        .normalize();
 
         let n = 2 * arcs + 1;
         let degree = 2;
@@ -971,9 +973,10 @@ where
 
             let p2 = center + &x_axis * x_radius * angle.cos() + &y_axis * y_radius * angle.sin();
 
-            let t2 = &y_axis * angle.cos() - &x_axis * angle.sin();
-            let ray = Ray::new(p0.clone(), t0.normalize());
-            let other = Ray::new(p2.clone(), t2.normalize());
+            let t2 =
+                (&y_axis * y_radius * angle.cos() - &x_axis * x_radius * angle.sin()).normalize();
+            let ray = Ray::new(p0.clone(), t0.clone());
+            let other = Ray::new(p2.clone(), t2.clone());
             let intersection = ray
                 .find_intersection(&other)
                 .ok_or(anyhow::anyhow!("No intersection"))?;
-- 
2.43.0


From a1b0ca7814f85ce97ad1bb6d095a47702a45bdab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:41:30 +0000
Subject: [PATCH 10/32] fix: loft all columns over common parameters

---
 src/curve/nurbs_curve.rs     | 31 ++++++++++++++------
 src/surface/nurbs_surface.rs | 56 +++++++++++++++++++++++++++---------
 2 files changed, 64 insertions(+), 23 deletions(-)

diff --git a/src/curve/nurbs_curve.rs b/src/curve/nurbs_curve.rs
index 0056369..a1f8cb8 100644
--- a/src/curve/nurbs_curve.rs
+++ b/src/curve/nurbs_curve.rs
@@ -2017,25 +2017,38 @@ pub fn try_interpolate_control_points<T: FloatingPoint>(
     degree: usize,
     homogeneous: bool,
 ) -> anyhow::Result<(Vec<DVector<T>>, KnotVector<T>)> {
-    let n = points.len();
-    if n < degree + 1 {
+    if points.len() < degree + 1 {
         anyhow::bail!("Too few control points for curve");
     }
 
+    let mut us = chord_length_parameters(points);
+
+    // normalize
+    let max = us[us.len() - 1];
+    us.iter_mut().for_each(|u| *u /= max);
+
+    try_interpolate_control_points_at(points, &us, degree, homogeneous)
+}
+
+/// Accumulate the chord lengths of the points
+pub(crate) fn chord_length_parameters<T: FloatingPoint>(points: &[DVector<T>]) -> Vec<T> {
     let mut us: Vec<T> = vec![T::zero()];
-    for i in 1..n {
+    for i in 1..points.len() {
         let sub = &points[i] - &points[i - 1];
         let chord = sub.norm();
         let last = us[i - 1];
         us.push(last + chord);
     }
+    us
+}
 
-    // normalize
-    let max = us[us.len() - 1];
-    for i in 0..us.len() {
-        us[i] /= max;
-    }
-
+/// Interpolate the points at the given normalized parameters
+pub(crate) fn try_interpolate_control_points_at<T: FloatingPoint>(
+    points: &[DVector<T>],
+    us: &[T],
+    degree: usize,
+    homogeneous: bool,
+) -> anyhow::Result<(Vec<DVector<T>>, KnotVector<T>)> {
     let mut knots_start = vec![T::zero(); degree + 1];
 
     let start = 1;
diff --git a/src/surface/nurbs_surface.rs b/src/surface/nurbs_surface.rs
index 40423eb..ad4cb42 100644
--- a/src/surface/nurbs_surface.rs
+++ b/src/surface/nurbs_surface.rs
@@ -12,7 +12,7 @@ use simba::scalar::SupersetOf;
 use crate::{
     curve::{
         nurbs_curve::{dehomogenize, NurbsCurve, NurbsCurve3D},
-        try_interpolate_control_points,
+        chord_length_parameters, try_interpolate_control_points_at,
     },
     misc::{
         binomial::Binomial, transformable::Transformable, transpose_control_points, FloatingPoint,
@@ -682,21 +682,25 @@ where
 
         let knots_u = unified_curves[0].knots().clone();
 
-        // Interpolate each column of control points to get the nurbs curve aligned with the v direction
-        let v_curves: anyhow::Result<Vec<_>> = (0..unified_curves[0].control_points().len())
+        let columns = (0..unified_curves[0].control_points().len())
             .map(|i| {
-                let points = unified_curves
+                unified_curves
                     .iter()
-                    .map(|c| c.control_points()[i].clone())
-                    .collect_vec();
-                let (control_points, knots) = try_interpolate_control_points(
-                    &points
-                        .iter()
-                        .map(|p| DVector::from_vec(p.iter().copied().collect()))
-                        .collect_vec(),
-                    degree_v,
-                    false,
-                )?;
+                    .map(|c| DVector::from_vec(c.control_points()[i].iter().copied().collect()))
+                    .collect_vec()
+            })
+            .collect_vec();
+
+        // All columns share the same parameters & knots,
+        // otherwise the surface does not pass through the given curves
+        let parameters_v = loft_parameters(&columns);
+
+        // Interpolate each column of control points to get the nurbs curve aligned with the v direction
+        let v_curves: anyhow::Result<Vec<_>> = columns
+            .iter()
+            .map(|points| {
+                let (control_points, knots) =
+                    try_interpolate_control_points_at(points, &parameters_v, degree_v, false)?;
                 NurbsCurve::try_new(
                     degree_v,
                     control_points
@@ -1313,6 +1317,30 @@ impl<T: FloatingPoint> NurbsSurface3D<T> {
     }
 }
 
+/// Average the normalized chord length parameters of the columns
+/// (a column that stays at a point has none)
+fn loft_parameters<T: FloatingPoint>(columns: &[Vec<DVector<T>>]) -> Vec<T> {
+    let n = columns[0].len();
+    let parameters = columns
+        .iter()
+        .map(|points| chord_length_parameters(points))
+        .filter(|us| us[n - 1] > T::default_epsilon())
+        .collect_vec();
+
+    (0..n)
+        .map(|i| {
+            if parameters.is_empty() {
+                T::from_usize(i).unwrap() / T::from_usize((n - 1).max(1)).unwrap()
+            } else {
+                let sum = parameters
+                    .iter()
+                    .fold(T::zero(), |sum, us| sum + us[i] / us[n - 1]);
+                sum / T::from_usize(parameters.len()).unwrap()
+            }
+        })
+        .collect()
+}
+
 /// Unify the knot vectors of a collection of NURBS curves
 ///
 fn try_unify_curve_knot_vectors<T, D>(
-- 
2.43.0


From 46748a24bd692d37f5eaef766715ac7e61152cb0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:41:46 +0000
Subject: [PATCH 11/32] fix: revolve around an axis of any length

---
 src/surface/nurbs_surface.rs | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/surface/nurbs_surface.rs b/src/surface/nurbs_surface.rs
index ad4cb42..c9d666b 100644
--- a/src/surface/nurbs_surface.rs
+++ b/src/surface/nurbs_surface.rs
@@ -1158,6 +1158,7 @@ impl<T: FloatingPoint> NurbsSurface3D<T> {
         axis: &Vector3<T>,
         theta: T,
     ) -> anyhow::Result<Self> {
+        let axis = &axis.normalize();
         let prof_points = profile.dehomogenized_control_points();
         let prof_weights = profile.weights();
 
-- 
2.43.0


From f0661467a6d880ac272895e43e9e8eadbbb0db03 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:29:11 +0000
Subject: [PATCH 12/32] fix: compound curve trimming at a joint must not
 include the neighbouring span

---
 src/trim/mod.rs | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/src/trim/mod.rs b/src/trim/mod.rs
index 797b2d0..0c8e8e1 100644
--- a/src/trim/mod.rs
+++ b/src/trim/mod.rs
@@ -55,9 +55,9 @@ where
                 let (d0, d1) = curve.knots_domain();
 
                 // use epsilon to avoid to trim at the terminal (start / end) of the curve
-                let curve_domain = (d0 + eps)..=(d1 - eps);
+                let is_interior = |t: T| d0 + eps < t && t < d1 - eps;
 
-                match (curve_domain.contains(&min), curve_domain.contains(&max)) {
+                match (is_interior(min), is_interior(max)) {
                     (true, true) => {
                         if inside {
                             curve.try_trim_range((min, max))
@@ -90,7 +90,8 @@ where
                         )
                     }
                     (false, false) => {
-                        let contains = range.contains(&d0);
+                        // no cut inside this curve: it belongs to the range as a whole or not at all
+                        let contains = range.contains(&((d0 + d1) * T::from_f64(0.5).unwrap()));
                         match (inside, contains) {
                             (true, true) => Ok(vec![curve.clone()]),
                             (true, false) => Ok(vec![]),
-- 
2.43.0


From e95ac44fdea21e5ee909814f787dd90ced27909c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:29:46 +0000
Subject: [PATCH 13/32] fix: extend a compound curve from both of its ends when
 connecting spans

---
 src/region/compound_curve.rs | 22 +++++++++++++---------
 1 file changed, 13 insertions(+), 9 deletions(-)

diff --git a/src/region/compound_curve.rs b/src/region/compound_curve.rs
index 003e82b..a987417 100644
--- a/src/region/compound_curve.rs
+++ b/src/region/compound_curve.rs
@@ -40,10 +40,18 @@ where
         let mut curves = spans.clone();
         let mut connected = vec![curves.remove(0)];
         while !curves.is_empty() {
-            let current = connected.len() - 1;
-            let last = &connected[current];
+            let first = &connected[0];
+            let last = &connected[connected.len() - 1];
+            // A curve can continue the chain after the last curve or before the first curve
             let found = curves.iter().enumerate().find_map(|(i, c)| {
-                CurveDirection::new(last, c, epsilon).map(|direction| (i, direction))
+                CurveDirection::new(last, c, epsilon)
+                    .filter(|d| matches!(d, CurveDirection::Forward | CurveDirection::Facing))
+                    .or_else(|| {
+                        CurveDirection::new(first, c, epsilon).filter(|d| {
+                            matches!(d, CurveDirection::Backward | CurveDirection::Opposite)
+                        })
+                    })
+                    .map(|direction| (i, direction))
             });
             match found {
                 Some((index, direction)) => {
@@ -53,17 +61,13 @@ where
                             connected.push(next);
                         }
                         CurveDirection::Backward => {
-                            connected.insert(current, next);
+                            connected.insert(0, next);
                         }
                         CurveDirection::Facing => {
                             connected.push(next.inverse());
                         }
                         CurveDirection::Opposite => {
-                            if current == 0 {
-                                connected.insert(current, next.inverse());
-                            } else {
-                                println!("Cannot handle opposite direction");
-                            }
+                            connected.insert(0, next.inverse());
                         }
                     }
                 }
-- 
2.43.0


From e3f810d5b6a36297b265e9368a83cdc6017adda4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:30:04 +0000
Subject: [PATCH 14/32] fix: align the spans of a compound curve by their
 domains

---
 src/region/compound_curve.rs | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/region/compound_curve.rs b/src/region/compound_curve.rs
index a987417..e3eea51 100644
--- a/src/region/compound_curve.rs
+++ b/src/region/compound_curve.rs
@@ -79,14 +79,14 @@ where
         }
 
         // Align knot vectors
-        // The first knot vector starts at 0, the rest are aligned to the previous knot vector
+        // The first domain starts at 0, the rest are aligned to the end of the previous domain
         let mut knot_offset = T::zero();
         connected.iter_mut().for_each(|curve| {
-            let start = curve.knots().first();
+            let (start, _) = curve.knots_domain();
             curve.knots_mut().iter_mut().for_each(|v| {
                 *v = *v - start + knot_offset;
             });
-            knot_offset = curve.knots().last();
+            knot_offset = curve.knots_domain().1;
         });
 
         Self { spans: connected }
-- 
2.43.0


From bb21b0153bf9eb08fb9dab275c2f30aa3e237765 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:30:36 +0000
Subject: [PATCH 15/32] fix: keep the parametrisation of a compound curve
 continuous when it is inverted

---
 src/region/compound_curve.rs | 12 +++++++++++-
 1 file changed, 11 insertions(+), 1 deletion(-)

diff --git a/src/region/compound_curve.rs b/src/region/compound_curve.rs
index e3eea51..7baa929 100644
--- a/src/region/compound_curve.rs
+++ b/src/region/compound_curve.rs
@@ -272,8 +272,18 @@ impl<T: FloatingPoint, D: DimName> Invertible for CompoundCurve<T, D>
 where
     DefaultAllocator: Allocator<D>,
 {
+    /// Reverse the direction of the curve, the parameter t moves to (start + end - t)
     fn invert(&mut self) {
-        self.spans.iter_mut().for_each(|span| span.invert());
+        let domain = match (self.spans.first(), self.spans.last()) {
+            (Some(first), Some(last)) => (first.knots_domain().0, last.knots_domain().1),
+            _ => return,
+        };
+        self.spans.iter_mut().for_each(|span| {
+            let (_, end) = span.knots_domain();
+            span.invert();
+            let offset = domain.0 + domain.1 - end - span.knots_domain().0;
+            span.knots_mut().iter_mut().for_each(|v| *v += offset);
+        });
         self.spans.reverse();
     }
 }
-- 
2.43.0


From 3f5bff9c73525c009a0025d0b09d80dcd28cf743 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:31:38 +0000
Subject: [PATCH 16/32] fix: keep trimming curves in place when a trimmed
 surface is inverted

---
 src/surface/trimmed_surface.rs | 27 ++++++++++++++++++++++-----
 1 file changed, 22 insertions(+), 5 deletions(-)

diff --git a/src/surface/trimmed_surface.rs b/src/surface/trimmed_surface.rs
index 755dcde..ce9da69 100644
--- a/src/surface/trimmed_surface.rs
+++ b/src/surface/trimmed_surface.rs
@@ -1,7 +1,7 @@
 use std::cmp::Ordering;
 
 use argmin::core::ArgminFloat;
-use nalgebra::{ComplexField, Matrix4, Point3, Vector3, U3};
+use nalgebra::{ComplexField, Matrix3, Matrix4, Point3, Vector3, U3};
 
 use crate::{
     curve::{NurbsCurve2D, NurbsCurve3D},
@@ -189,12 +189,29 @@ impl<'a, T: FloatingPoint> Transformable<&'a Matrix4<T>> for TrimmedSurface<T> {
 
 impl<T: FloatingPoint> Invertible for TrimmedSurface<T> {
     /// Reverse the direction of the surface
+    /// The trimming curves follow the reversed parameters of the surface
     fn invert(&mut self) {
+        let (u, v) = (self.surface.u_knots(), self.surface.v_knots());
+        let (u, v) = (u.first() + u.last(), v.first() + v.last());
+        let mirror = Matrix3::new(
+            -T::one(),
+            T::zero(),
+            u,
+            T::zero(),
+            -T::one(),
+            v,
+            T::zero(),
+            T::zero(),
+            T::one(),
+        );
         self.surface.invert();
-        if let Some(curve) = self.exterior.as_mut() {
-            curve.invert();
-        }
-        self.interiors.iter_mut().for_each(|curve| curve.invert());
+        self.exterior
+            .iter_mut()
+            .chain(self.interiors.iter_mut())
+            .for_each(|curve| {
+                curve.transform(&mirror);
+                curve.invert();
+            });
     }
 }
 
-- 
2.43.0


From 366acba7f3406b65984e6c561aedb75a6116a48a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:52:53 +0000
Subject: [PATCH 17/32] fix: find the west neighbor of a tessellation cell by
 its column

---
 src/tessellation/surface.rs | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/tessellation/surface.rs b/src/tessellation/surface.rs
index c97cb57..aa1f57e 100644
--- a/src/tessellation/surface.rs
+++ b/src/tessellation/surface.rs
@@ -173,7 +173,7 @@ where
                 let s = south(index, iv, divs_u, divs_v);
                 let e = east(index, iu, divs_u);
                 let n = north(index, iv, divs_u);
-                let w = west(index, iv);
+                let w = west(index, iu);
                 AdaptiveTessellationNode::new(index, corners, [s, e, n, w])
             })
         })
@@ -221,8 +221,8 @@ fn east(index: usize, iu: usize, divs_u: usize) -> Option<usize> {
     }
 }
 
-fn west(index: usize, iv: usize) -> Option<usize> {
-    if iv == 0 {
+fn west(index: usize, iu: usize) -> Option<usize> {
+    if iu == 0 {
         None
     } else {
         Some(index - 1)
-- 
2.43.0


From bd2bef29ea908ad102ec519071b2a0224314e368 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:52:53 +0000
Subject: [PATCH 18/32] fix: constrain the last row and column of the
 tessellated surface

---
 src/tessellation/surface.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/tessellation/surface.rs b/src/tessellation/surface.rs
index aa1f57e..227e90a 100644
--- a/src/tessellation/surface.rs
+++ b/src/tessellation/surface.rs
@@ -140,14 +140,14 @@ where
         .enumerate()
         .map(|(iv, v)| {
             let u_min = iv == 0;
-            let u_max = iv == divs_v - 1;
+            let u_max = iv == divs_v;
             let u_constraint = (u_min && u_min_constraint) || (u_max && u_max_constraint);
 
             let row = us.iter().enumerate().map(|(iu, u)| {
                 let ds = s.rational_derivatives(*u, *v, 1);
                 let norm = ds[1][0].cross(&ds[0][1]).normalize();
                 let v_min = iu == 0;
-                let v_max = iu == divs_u - 1;
+                let v_max = iu == divs_u;
                 let v_constraint = (v_min && v_min_constraint) || (v_max && v_max_constraint);
                 SurfacePoint::new(Vector2::new(*u, *v), ds[0][0].clone().into(), norm, false)
                     .with_constraints(u_constraint, v_constraint)
-- 
2.43.0


From 278a8dc2edd29595e45fa586622e7e2890b4fe1c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:55:04 +0000
Subject: [PATCH 19/32] fix: flag grid points without a normal instead of
 giving them a NaN normal

---
 src/tessellation/surface.rs | 18 ++++++++++++++----
 1 file changed, 14 insertions(+), 4 deletions(-)

diff --git a/src/tessellation/surface.rs b/src/tessellation/surface.rs
index 227e90a..2f187d0 100644
--- a/src/tessellation/surface.rs
+++ b/src/tessellation/surface.rs
@@ -145,13 +145,23 @@ where
 
             let row = us.iter().enumerate().map(|(iu, u)| {
                 let ds = s.rational_derivatives(*u, *v, 1);
-                let norm = ds[1][0].cross(&ds[0][1]).normalize();
+                let norm = ds[1][0].cross(&ds[0][1]);
+                // the normal vanishes where the surface degenerates (e.g. at the poles of a sphere)
+                let (norm, is_normal_degenerated) = match norm.try_normalize(T::zero()) {
+                    Some(unit) => (unit, false),
+                    None => (norm, true),
+                };
                 let v_min = iu == 0;
                 let v_max = iu == divs_u;
                 let v_constraint = (v_min && v_min_constraint) || (v_max && v_max_constraint);
-                SurfacePoint::new(Vector2::new(*u, *v), ds[0][0].clone().into(), norm, false)
-                    .with_constraints(u_constraint, v_constraint)
-                    .with_boundary(u_min, u_max, v_min, v_max)
+                SurfacePoint::new(
+                    Vector2::new(*u, *v),
+                    ds[0][0].clone().into(),
+                    norm,
+                    is_normal_degenerated,
+                )
+                .with_constraints(u_constraint, v_constraint)
+                .with_boundary(u_min, u_max, v_min, v_max)
             });
             row.collect_vec()
         })
-- 
2.43.0


From ec5afea2212fd9ebe34fc320e79b9f94a0867a6b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:55:04 +0000
Subject: [PATCH 20/32] fix: normalize the normals of the points on a
 constrained boundary

---
 src/tessellation/boundary_constraints.rs | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/tessellation/boundary_constraints.rs b/src/tessellation/boundary_constraints.rs
index 9b03a3a..b25f8e0 100644
--- a/src/tessellation/boundary_constraints.rs
+++ b/src/tessellation/boundary_constraints.rs
@@ -127,7 +127,10 @@ where
             let deriv = surface.rational_derivatives(uv.x, uv.y, 1);
             let pt = deriv[0][0].clone();
             let norm = deriv[1][0].cross(&deriv[0][1]);
-            let is_normal_degenerated = norm.magnitude_squared() < T::default_epsilon();
+            let (norm, is_normal_degenerated) = match norm.try_normalize(T::zero()) {
+                Some(unit) => (unit, false),
+                None => (norm, true),
+            };
             SurfacePoint::new(uv, pt.into(), norm, is_normal_degenerated)
         };
 
-- 
2.43.0


From 0155e0706008fe949383aa59f31b864db7649bb4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:57:50 +0000
Subject: [PATCH 21/32] fix: keep constrained boundaries undivided below the
 minimum depth too

---
 src/tessellation/adaptive_tessellation_node.rs | 16 +++++++++++++---
 1 file changed, 13 insertions(+), 3 deletions(-)

diff --git a/src/tessellation/adaptive_tessellation_node.rs b/src/tessellation/adaptive_tessellation_node.rs
index 359de12..1d80155 100644
--- a/src/tessellation/adaptive_tessellation_node.rs
+++ b/src/tessellation/adaptive_tessellation_node.rs
@@ -198,8 +198,18 @@ where
         options: &AdaptiveTessellationOptions<T>,
         current_depth: usize,
     ) -> Option<DividableDirection> {
+        // splitting in a direction divides the edges running along the other one,
+        // which is not allowed on constrained boundaries
+        let v_dividable = self.corners.iter().all(|c| !c.is_u_constrained());
+        let u_dividable = self.corners.iter().all(|c| !c.is_v_constrained());
+
         if current_depth < options.min_depth {
-            return Some(DividableDirection::Both);
+            return match (u_dividable, v_dividable) {
+                (true, true) => Some(DividableDirection::Both),
+                (true, false) => Some(DividableDirection::U),
+                (false, true) => Some(DividableDirection::V),
+                (false, false) => None,
+            };
         }
 
         if current_depth >= options.max_depth {
@@ -218,13 +228,13 @@ where
             > options.norm_tolerance
             || (self.corners[2].normal() - self.corners[3].normal()).norm_squared()
                 > options.norm_tolerance;
-        let v_direction = v_direction && self.corners.iter().all(|c| !c.is_u_constrained());
+        let v_direction = v_direction && v_dividable;
 
         let u_direction = (self.corners[1].normal() - self.corners[2].normal()).norm_squared()
             > options.norm_tolerance
             || (self.corners[3].normal() - self.corners[0].normal()).norm_squared()
                 > options.norm_tolerance;
-        let u_direction = u_direction && self.corners.iter().all(|c| !c.is_v_constrained());
+        let u_direction = u_direction && u_dividable;
 
         match (u_direction, v_direction) {
             (true, true) => Some(DividableDirection::Both),
-- 
2.43.0


From ec4b101033aeb25a24d0e06f8e33d4139424989c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:27:47 +0000
Subject: [PATCH 22/32] fix: measure only the Bezier segments within the domain
 of an unclamped curve

---
 src/curve/nurbs_curve.rs | 45 +++++++++++++++++-----------------------
 1 file changed, 19 insertions(+), 26 deletions(-)

diff --git a/src/curve/nurbs_curve.rs b/src/curve/nurbs_curve.rs
index a1f8cb8..0be1e74 100644
--- a/src/curve/nurbs_curve.rs
+++ b/src/curve/nurbs_curve.rs
@@ -450,33 +450,11 @@ where
         D: DimNameSub<U1>,
         DefaultAllocator: Allocator<DimNameDiff<D, U1>>,
     {
-        let mult = self.knots.multiplicity();
-        let start = mult.first().unwrap().multiplicity();
-        let end = mult.last().unwrap().multiplicity();
-
-        let segments = self.try_decompose_bezier_segments()?;
-
-        // If the start/end parts of the knot vector are not duplicated,
-        // the Bezier segments will not be generated correctly,
-        // so reduce the number of segments by the amount that falls below the required duplication degree.
-        let required_multiplicity = self.degree + 1;
-        let i = required_multiplicity.saturating_sub(start);
-        let j = if end < required_multiplicity {
-            segments.len() - (required_multiplicity - end)
-        } else {
-            segments.len()
-        };
-        let segments = &segments[i..j];
+        let segments = self.try_decompose_bezier_segments_in_domain()?;
 
         let (_, u) = self.knots_domain();
         let gauss = GaussLegendre::new(16 + self.degree)?;
 
-        if segments.len() <= 1 {
-            // If the curve is a single Bezier segment, compute the length directly
-            let l = compute_bezier_segment_length(self, u, &gauss);
-            return Ok(l);
-        }
-
         let length = segments
             .iter()
             .map(|s| compute_bezier_segment_length(s, u, &gauss))
@@ -513,7 +491,7 @@ where
             return Ok(self.knots_domain().0);
         }
 
-        let segments = self.try_decompose_bezier_segments()?;
+        let segments = self.try_decompose_bezier_segments_in_domain()?;
         let gauss = GaussLegendre::new(16 + self.degree)?;
         let tolerance = tolerance.unwrap_or(T::from_f64(1e-4).unwrap());
 
@@ -571,7 +549,7 @@ where
     {
         anyhow::ensure!(length > T::zero(), "The length must be greater than zero");
 
-        let segments = self.try_decompose_bezier_segments()?;
+        let segments = self.try_decompose_bezier_segments_in_domain()?;
         let lengthes = segments
             .iter()
             .map(|s| s.try_length())
@@ -585,7 +563,7 @@ where
             length
         );
 
-        let mut samples = vec![CurveLengthParameter::new(self.knots.first(), T::zero())];
+        let mut samples = vec![CurveLengthParameter::new(self.knots_domain().0, T::zero())];
 
         let mut i = 0;
         let mut lc = length;
@@ -1789,6 +1767,21 @@ where
         Ok(segments)
     }
 
+    /// Decompose the curve into the Bezier segments which lie in its domain
+    /// If the start/end parts of the knot vector are not duplicated,
+    /// the decomposition also generates segments outside of the domain.
+    fn try_decompose_bezier_segments_in_domain(&self) -> anyhow::Result<Vec<Self>> {
+        let (start, end) = self.knots_domain();
+        let segments = self.try_decompose_bezier_segments()?;
+        Ok(segments
+            .into_iter()
+            .filter(|s| {
+                let (s0, s1) = s.knots_domain();
+                start <= s0 && s1 <= end
+            })
+            .collect())
+    }
+
     /// Cast the curve to a curve with another floating point type
     pub fn cast<F: FloatingPoint + SupersetOf<T>>(&self) -> NurbsCurve<F, D>
     where
-- 
2.43.0


From 3ba580366f2275db3cdd728f4ee9cde9b65de9f3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:27:47 +0000
Subject: [PATCH 23/32] fix: allow a curve to be divided by its whole length

---
 src/curve/nurbs_curve.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/curve/nurbs_curve.rs b/src/curve/nurbs_curve.rs
index 0be1e74..8e4f775 100644
--- a/src/curve/nurbs_curve.rs
+++ b/src/curve/nurbs_curve.rs
@@ -557,7 +557,7 @@ where
         let total = lengthes.iter().fold(T::zero(), |a, b| a + *b);
 
         anyhow::ensure!(
-            total > length,
+            total >= length,
             "The curve is too short to divide by the given length total:{}, given length:{}",
             total,
             length
-- 
2.43.0


From 0a74d34242535d7d79cec140218f02b08950d814 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:28:18 +0000
Subject: [PATCH 24/32] fix: wrap a parameter below the domain of a closed
 curve or surface to its end

---
 src/closest_parameter/curve_closest_parameter_newton.rs   | 4 ++--
 src/closest_parameter/surface_closest_parameter_newton.rs | 7 ++++---
 2 files changed, 6 insertions(+), 5 deletions(-)

diff --git a/src/closest_parameter/curve_closest_parameter_newton.rs b/src/closest_parameter/curve_closest_parameter_newton.rs
index 1b4b7de..045fdc0 100644
--- a/src/closest_parameter/curve_closest_parameter_newton.rs
+++ b/src/closest_parameter/curve_closest_parameter_newton.rs
@@ -70,13 +70,13 @@ where
         // Constrain the parameter to the domain
         let new_param = if new_param < self.knot_domain.0 {
             if self.closed {
-                self.knot_domain.1 - (new_param - self.knot_domain.0)
+                (self.knot_domain.1 - (self.knot_domain.0 - new_param)).max(self.knot_domain.0)
             } else {
                 self.knot_domain.0
             }
         } else if new_param > self.knot_domain.1 {
             if self.closed {
-                self.knot_domain.0 + (new_param - self.knot_domain.1)
+                (self.knot_domain.0 + (new_param - self.knot_domain.1)).min(self.knot_domain.1)
             } else {
                 self.knot_domain.1
             }
diff --git a/src/closest_parameter/surface_closest_parameter_newton.rs b/src/closest_parameter/surface_closest_parameter_newton.rs
index 6e5468a..5f769a9 100644
--- a/src/closest_parameter/surface_closest_parameter_newton.rs
+++ b/src/closest_parameter/surface_closest_parameter_newton.rs
@@ -1,6 +1,7 @@
 use argmin::{argmin_error, argmin_error_closure, core::*, float};
 use nalgebra::{
-    allocator::Allocator, DefaultAllocator, DimNameDiff, DimNameSub, Matrix2, OVector, Vector2, U1,
+    allocator::Allocator, DefaultAllocator, DimNameDiff, DimNameSub, Matrix2, OVector, RealField,
+    Vector2, U1,
 };
 
 use crate::misc::FloatingPoint;
@@ -198,13 +199,13 @@ where
 fn constrain<T: FloatingPoint>(parameter: T, domain: (T, T), closed: bool) -> T {
     if parameter < domain.0 {
         if closed {
-            domain.1 - (parameter - domain.0)
+            RealField::max(domain.1 - (domain.0 - parameter), domain.0)
         } else {
             domain.0 + T::default_epsilon()
         }
     } else if parameter > domain.1 {
         if closed {
-            domain.0 + (parameter - domain.1)
+            RealField::min(domain.0 + (parameter - domain.1), domain.1)
         } else {
             domain.1 - T::default_epsilon()
         }
-- 
2.43.0


From 7e8d0bb1b39488a779896e6f837e2c93c71d4a63 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:29:02 +0000
Subject: [PATCH 25/32] fix: keep the initial guess of the closest parameter
 where the iteration ends farther away

---
 src/curve/nurbs_curve.rs | 12 +++++-------
 1 file changed, 5 insertions(+), 7 deletions(-)

diff --git a/src/curve/nurbs_curve.rs b/src/curve/nurbs_curve.rs
index 8e4f775..d3e90de 100644
--- a/src/curve/nurbs_curve.rs
+++ b/src/curve/nurbs_curve.rs
@@ -1686,14 +1686,12 @@ where
         let res = Executor::new(CurveClosestParameterProblem::new(point, self), solver)
             .configure(|state| state.param(u).max_iters(5))
             .run()?;
+        // The iteration may leave the initial guess for a farther point or diverge
+        // where the distance is not smooth (e.g. a corner of a polyline)
+        let distance = |t: T| (self.point_at(t) - point).norm_squared();
         match res.state().get_best_param().cloned() {
-            Some(t) => {
-                if t.is_finite() {
-                    Ok(t)
-                } else {
-                    Err(anyhow::anyhow!("No best parameter found"))
-                }
-            }
+            Some(t) if t.is_finite() && distance(t) <= distance(u) => Ok(t),
+            Some(_) => Ok(u),
             _ => Err(anyhow::anyhow!("No best parameter found")),
         }
     }
-- 
2.43.0


From d71c72b1e9d972abbfe598d5eb5f23753d172550 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:23:40 +0000
Subject: [PATCH 26/32] fix: point containment near a sharp corner counted two
 crossings as one

---
 src/contains/contains_curve.rs | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/src/contains/contains_curve.rs b/src/contains/contains_curve.rs
index fcdfc0f..da7226d 100644
--- a/src/contains/contains_curve.rs
+++ b/src/contains/contains_curve.rs
@@ -110,7 +110,7 @@ pub fn x_ray_intersection<T: FloatingPoint + ArgminFloat>(
                 let dy = p.y - point.y;
 
                 if Float::abs(dy) < option.minimum_distance {
-                    return Some((p, t));
+                    return Some((p, t, y_forward));
                 }
 
                 let over = dy > T::zero();
@@ -124,7 +124,7 @@ pub fn x_ray_intersection<T: FloatingPoint + ArgminFloat>(
 
             None
         })
-        .filter(|(p, _)| point.x <= p.x)
+        .filter(|(p, _, _)| point.x <= p.x)
         .collect_vec();
 
     intersections.sort_by(|a, b| a.1.partial_cmp(&b.1).unwrap_or(Ordering::Equal));
@@ -133,9 +133,10 @@ pub fn x_ray_intersection<T: FloatingPoint + ArgminFloat>(
     let filtered = intersections
         .into_iter()
         .coalesce(|x, y| {
-            // merge intersections that are close
+            // merge intersections that are close,
+            // successive crossings in opposite directions are distinct however close they are
             let dt = x.0 - y.0;
-            if dt.norm() < eps {
+            if x.2 == y.2 && dt.norm() < eps {
                 Ok(x)
             } else {
                 Err((x, y))
-- 
2.43.0


From e2015fa275d79196dee854476a51840c5250a975 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:42:39 +0000
Subject: [PATCH 27/32] fix: count a ray through the gap between the spans of a
 compound curve in containment

---
 src/contains/contains_compound_curve.rs | 17 +++++++++++++++--
 1 file changed, 15 insertions(+), 2 deletions(-)

diff --git a/src/contains/contains_compound_curve.rs b/src/contains/contains_compound_curve.rs
index 1b43f01..8d413f4 100644
--- a/src/contains/contains_compound_curve.rs
+++ b/src/contains/contains_compound_curve.rs
@@ -1,9 +1,10 @@
 use argmin::core::ArgminFloat;
+use itertools::Itertools;
 use nalgebra::{Const, Point2};
 
 use crate::{
     contains::contains_curve::x_ray_intersection,
-    misc::FloatingPoint,
+    misc::{EndPoints, FloatingPoint},
     prelude::{BoundingBox, CurveIntersectionSolverOptions},
     region::CompoundCurve,
 };
@@ -63,6 +64,18 @@ impl<T: FloatingPoint + ArgminFloat> Contains<T, Const<2>> for CompoundCurve<T,
             .collect();
 
         let count = intersections?.iter().map(|its| its.len()).sum::<usize>();
-        Ok(count % 2 == 1)
+
+        // the ends of adjacent spans may differ slightly, a ray between them crosses the boundary there
+        let joints = self
+            .spans()
+            .iter()
+            .circular_tuple_windows()
+            .filter(|(a, b)| {
+                let (end, start) = (a.end_point(), b.first_point());
+                (point.y < end.y) != (point.y < start.y) && point.x <= end.x
+            })
+            .count();
+
+        Ok((count + joints) % 2 == 1)
     }
 }
-- 
2.43.0


From ef57628426c476671aaf09cb76de139a12f46138 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:42:39 +0000
Subject: [PATCH 28/32] fix: return the holes of a union as interiors instead
 of further regions

---
 src/boolean/clip.rs | 20 +++++++++++++++++++-
 1 file changed, 19 insertions(+), 1 deletion(-)

diff --git a/src/boolean/clip.rs b/src/boolean/clip.rs
index fb04904..a343cd3 100644
--- a/src/boolean/clip.rs
+++ b/src/boolean/clip.rs
@@ -10,7 +10,9 @@ use crate::{
     },
     curve::NurbsCurve2D,
     misc::{EndPoints, FloatingPoint},
-    prelude::{CompoundCurveIntersection, Contains, HasIntersection, HasIntersectionParameter},
+    prelude::{
+        BoundingBox, CompoundCurveIntersection, Contains, HasIntersection, HasIntersectionParameter,
+    },
     region::{CompoundCurve, Region},
     trim::TrimRange,
 };
@@ -395,5 +397,21 @@ where
         }
     }
 
+    if operation == BooleanOperation::Union && regions.len() > 1 {
+        // the union of two crossing boundaries is connected:
+        // one loop bounds it from the outside, and the others are holes in it
+        let mut loops = regions.into_iter().map(Region::into_exterior).collect_vec();
+        let exterior = loops
+            .iter()
+            .map(|it| {
+                let bb: BoundingBox<T, U2> = it.into();
+                bb.size().norm()
+            })
+            .position_max_by(|x, y| x.partial_cmp(y).unwrap_or(Ordering::Equal))
+            .unwrap_or(0);
+        let exterior = loops.remove(exterior);
+        regions = vec![Region::new(exterior, loops)];
+    }
+
     Ok(Clip::new(regions, info))
 }
-- 
2.43.0


From 3ac327e9fdda8e2c9f7c83f7eebd26f532c3fba2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:42:39 +0000
Subject: [PATCH 29/32] fix: boolean operations of regions lost pieces, islands
 and interiors

---
 src/boolean/boolean_region.rs | 193 ++++++++++++++++++----------------
 1 file changed, 100 insertions(+), 93 deletions(-)

diff --git a/src/boolean/boolean_region.rs b/src/boolean/boolean_region.rs
index 89b24cb..2e0c874 100644
--- a/src/boolean/boolean_region.rs
+++ b/src/boolean/boolean_region.rs
@@ -1,5 +1,4 @@
 use argmin::core::ArgminFloat;
-use itertools::Itertools;
 use nalgebra::Const;
 use nalgebra::U3;
 
@@ -42,95 +41,60 @@ impl<'a, T: FloatingPoint + ArgminFloat> Boolean<&'a CompoundCurve<T, U3>> for R
     ) -> Self::Output {
         match operation {
             BooleanOperation::Union => {
-                let exterior =
+                let clip =
                     self.exterior()
                         .boolean(BooleanOperation::Union, other, option.clone())?;
+                let mut regions = clip.into_regions();
 
-                let exterior = exterior
-                    .into_regions()
-                    .into_iter()
-                    .next()
-                    .map(|region| region.into_exterior())
-                    .ok_or(anyhow::anyhow!("No exterior region found"))?;
-
-                let interior_differences = self
-                    .interiors()
-                    .iter()
-                    .map(|interior| {
-                        interior.boolean(BooleanOperation::Difference, other, option.clone())
-                    })
-                    .collect::<anyhow::Result<Vec<_>>>()?;
-
-                let interiors = interior_differences
-                    .into_iter()
-                    .flat_map(|c| {
-                        c.into_regions()
-                            .into_iter()
-                            .map(|region| region.into_exterior())
-                    })
-                    .collect();
-
-                Ok(Clip::new(
-                    vec![Region::new(exterior, interiors)],
-                    Default::default(),
-                ))
-            }
-            BooleanOperation::Intersection => {
-                // difference other and interiors
-                let mut clip_regions: Vec<Region<T>> = vec![other.clone().into()];
-                for it in self.interiors().iter() {
-                    let mut next_clips = vec![];
-                    for clip in clip_regions.iter() {
-                        let c = clip.boolean(BooleanOperation::Difference, it, option.clone())?;
-                        let mut regions = c.into_regions();
-                        let mut interiors = clip.interiors().iter().cloned().collect_vec();
-                        distribute_interiors_to_regions(
-                            &mut regions,
-                            &mut interiors,
-                            option.clone(),
-                        )?;
-                        next_clips.extend(regions);
+                // what is left of the interiors, and other where it lies inside of one
+                let mut interiors = vec![];
+                let mut islands = vec![];
+                for interior in self.interiors() {
+                    let clip =
+                        interior.boolean(BooleanOperation::Difference, other, option.clone())?;
+                    for region in clip.into_regions() {
+                        let (ex, its) = region.into_tuple();
+                        interiors.push(ex);
+                        islands.extend(its.into_iter().map(Region::from));
                     }
-                    clip_regions = next_clips;
                 }
 
-                let regions = clip_regions
-                    .into_iter()
-                    .map(|clip_region| {
-                        let (ex, mut its) = clip_region.into_tuple();
-                        self.exterior()
-                            .boolean(BooleanOperation::Intersection, &ex, option.clone())
-                            .and_then(|clip| {
-                                let mut regions = clip.into_regions();
-                                distribute_interiors_to_regions(
-                                    &mut regions,
-                                    &mut its,
-                                    option.clone(),
-                                )?;
-                                Ok(regions)
-                            })
-                    })
-                    .collect::<anyhow::Result<Vec<_>>>()?
-                    .into_iter()
-                    .flatten()
-                    .collect();
-
+                distribute_interiors_to_regions(&mut regions, &mut interiors, option)?;
+                regions.extend(islands);
+                Ok(Clip::new(regions, Default::default()))
+            }
+            BooleanOperation::Intersection => {
+                let clip = self.exterior().boolean(
+                    BooleanOperation::Intersection,
+                    other,
+                    option.clone(),
+                )?;
+                let mut regions = clip.into_regions();
+                for interior in self.interiors() {
+                    regions = subtract_from_regions(&regions, interior, &option)?;
+                }
                 Ok(Clip::new(regions, Default::default()))
             }
             BooleanOperation::Difference => {
-                // union other and interiors
+                // union other and the interiors it meets
                 let mut current_clip: CompoundCurve<T, U3> = other.clone();
                 let mut interiors = vec![];
+                // parts enclosed by the union
+                let mut islands: Vec<Region<T>> = vec![];
 
                 for interior in self.interiors() {
+                    islands = subtract_from_regions(&islands, interior, &option)?;
                     let union =
                         current_clip.boolean(BooleanOperation::Union, interior, option.clone())?;
-                    let mut regions_iter = union.into_regions().into_iter();
-                    let head = regions_iter.next();
-                    if let Some(head) = head {
-                        current_clip = head.into_exterior();
+                    let mut united = union.into_regions();
+                    match united.pop() {
+                        Some(region) if united.is_empty() => {
+                            let (ex, its) = region.into_tuple();
+                            current_clip = ex;
+                            islands.extend(its.into_iter().map(Region::from));
+                        }
+                        _ => interiors.push(interior.clone()),
                     }
-                    regions_iter.for_each(|region| interiors.push(region.into_exterior()));
                 }
 
                 let clip = self.exterior().boolean(
@@ -140,6 +104,14 @@ impl<'a, T: FloatingPoint + ArgminFloat> Boolean<&'a CompoundCurve<T, U3>> for R
                 )?;
                 let mut regions = clip.into_regions();
                 distribute_interiors_to_regions(&mut regions, &mut interiors, option.clone())?;
+                for island in islands {
+                    let clip = island.boolean(
+                        BooleanOperation::Intersection,
+                        self.exterior(),
+                        option.clone(),
+                    )?;
+                    regions.extend(clip.into_regions());
+                }
                 Ok(Clip::new(regions, Default::default()))
             }
         }
@@ -160,23 +132,59 @@ impl<'a, T: FloatingPoint + ArgminFloat> Boolean<&'a Region<T>> for Region<T> {
         let clip = self.boolean(operation, other.exterior(), option.clone())?;
         let mut regions = clip.into_regions();
 
-        for interior in other.interiors().iter() {
-            match operation {
-                BooleanOperation::Union | BooleanOperation::Intersection => {
-                    let clips = regions
-                        .iter()
-                        .map(|r| r.boolean(BooleanOperation::Difference, interior, option.clone()))
-                        .collect::<anyhow::Result<Vec<_>>>()?;
-                    regions = clips.into_iter().flat_map(|c| c.into_regions()).collect();
+        match operation {
+            BooleanOperation::Union => {
+                // what self leaves of the interiors, and self where it lies inside of one
+                let mut interiors = vec![];
+                let mut islands = vec![];
+                for interior in other.interiors() {
+                    let clip = Region::from(interior.clone()).boolean(
+                        BooleanOperation::Difference,
+                        self,
+                        option.clone(),
+                    )?;
+                    for region in clip.into_regions() {
+                        let (ex, its) = region.into_tuple();
+                        interiors.push(ex);
+                        islands.extend(its.into_iter().map(Region::from));
+                    }
+                }
+                distribute_interiors_to_regions(&mut islands, &mut interiors, option.clone())?;
+                distribute_interiors_to_regions(&mut regions, &mut interiors, option)?;
+                regions.extend(islands);
+            }
+            BooleanOperation::Intersection => {
+                for interior in other.interiors() {
+                    regions = subtract_from_regions(&regions, interior, &option)?;
+                }
+            }
+            BooleanOperation::Difference => {
+                // self inside of the interiors
+                for interior in other.interiors() {
+                    let clip =
+                        self.boolean(BooleanOperation::Intersection, interior, option.clone())?;
+                    regions.extend(clip.into_regions());
                 }
-                BooleanOperation::Difference => {}
-            };
+            }
         }
 
         Ok(Clip::new(regions, Default::default()))
     }
 }
 
+/// subtract a boundary from each of the regions
+fn subtract_from_regions<T: FloatingPoint + ArgminFloat>(
+    regions: &[Region<T>],
+    boundary: &CompoundCurve<T, U3>,
+    option: &Option<CurveIntersectionSolverOptions<T>>,
+) -> anyhow::Result<Vec<Region<T>>> {
+    let clips = regions
+        .iter()
+        .map(|r| r.boolean(BooleanOperation::Difference, boundary, option.clone()))
+        .collect::<anyhow::Result<Vec<_>>>()?;
+    Ok(clips.into_iter().flat_map(|c| c.into_regions()).collect())
+}
+
 /// distribute the interiors into the regions that contain them
 fn distribute_interiors_to_regions<T: FloatingPoint + ArgminFloat>(
     regions: &mut [Region<T>],
@@ -187,15 +195,14 @@ fn distribute_interiors_to_regions<T: FloatingPoint + ArgminFloat>(
         let n = interiors.len();
         for i in (0..n).rev() {
             let pt = interiors[i].first_point();
-            match region.exterior().contains(&pt, option.clone()) {
-                Ok(true) => {
-                    let it = interiors.remove(i);
-                    region.interiors_mut().push(it);
-                }
-                Ok(false) => {}
-                Err(e) => {
-                    return Err(e);
-                }
+            // inside of the exterior, and outside of the interiors it already has
+            let mut inside = region.exterior().contains(&pt, option.clone())?;
+            for interior in region.interiors() {
+                inside = inside && !interior.contains(&pt, option.clone())?;
+            }
+            if inside {
+                let it = interiors.remove(i);
+                region.interiors_mut().push(it);
             }
         }
     }
-- 
2.43.0


From 50afe7c283321c6e0875d19623a7a9ec86a28f67 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:54:15 +0000
Subject: [PATCH 30/32] fix: report a crossing at the seam of a closed curve or
 at a joint of the other compound once

---
 .../intersection_compound_curve.rs            | 22 ++++++++++++++++++-
 .../curve_curve/intersection_curve_curve.rs   | 14 ++++++++++++
 2 files changed, 35 insertions(+), 1 deletion(-)

diff --git a/src/intersects/curve_curve/intersection_compound_curve.rs b/src/intersects/curve_curve/intersection_compound_curve.rs
index 2a462b5..4372e4a 100644
--- a/src/intersects/curve_curve/intersection_compound_curve.rs
+++ b/src/intersects/curve_curve/intersection_compound_curve.rs
@@ -92,7 +92,27 @@ where
             .map(|span| self.find_intersections(span, options.clone()))
             .collect();
 
-        Ok(res?.into_iter().flatten().collect())
+        let mut res = res?;
+        let eps = T::from_f64(1e-2).unwrap();
+
+        // a crossing at a joint of the other compound is found on both of its spans there
+        (0..res.len()).circular_tuple_windows().for_each(|(a, b)| {
+            if a != b {
+                let (mut former, latter) = (std::mem::take(&mut res[a]), &res[b]);
+                former.retain(|ia| {
+                    let end = ia.b().0.knots_domain().1;
+                    Float::abs(end - ia.b().2) >= eps
+                        || !latter.iter().any(|ib| {
+                            let start = ib.b().0.knots_domain().0;
+                            Float::abs(start - ib.b().2) < eps
+                                && (&ia.b().1 - &ib.b().1).norm() < eps
+                        })
+                });
+                res[a] = former;
+            }
+        });
+
+        Ok(res.into_iter().flatten().collect())
     }
 }
 
diff --git a/src/intersects/curve_curve/intersection_curve_curve.rs b/src/intersects/curve_curve/intersection_curve_curve.rs
index d40e762..5608ebb 100644
--- a/src/intersects/curve_curve/intersection_curve_curve.rs
+++ b/src/intersects/curve_curve/intersection_curve_curve.rs
@@ -219,6 +219,20 @@ where
 
         // println!("pts: {:?}", pts.len());
 
+        // a crossing at the seam of a closed curve is found at both ends of its domain
+        let mut pts = pts;
+        let at_seam = match (pts.first(), pts.last()) {
+            (Some(first), Some(last)) if pts.len() > 1 && self.is_closed() => {
+                Float::abs(first.a().1 - a_domain.0) < parameter_minimum_distance
+                    && Float::abs(last.a().1 - a_domain.1) < parameter_minimum_distance
+                    && (&first.a().0 - &last.a().0).norm() < options.minimum_distance
+            }
+            _ => false,
+        };
+        if at_seam {
+            pts.pop();
+        }
+
         Ok(pts)
     }
 }
-- 
2.43.0


From 8b934ae18033bd238e2a1e57ba9491f4a3cb78d7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:54:15 +0000
Subject: [PATCH 31/32] fix: boolean operations of boundaries that start on the
 other boundary

---
 src/boolean/clip.rs | 45 +++++++++++++++++++++++++++++++++++++++++++--
 src/trim/mod.rs     |  5 +++++
 2 files changed, 48 insertions(+), 2 deletions(-)

diff --git a/src/boolean/clip.rs b/src/boolean/clip.rs
index a343cd3..3df9dc2 100644
--- a/src/boolean/clip.rs
+++ b/src/boolean/clip.rs
@@ -85,6 +85,38 @@ impl<T: FloatingPoint> Clip<T> {
     }
 }
 
+type VertexNode<'a, T> = Rc<RefCell<Node<Vertex<'a, T>>>>;
+
+/// Whether the start of the boundary is one of its intersections,
+/// the start then tells nothing about the side of the other boundary it runs on
+fn starts_at_intersection<T: FloatingPoint, C: EndPoints<T, U2>>(
+    boundary: &C,
+    nodes: &[VertexNode<'_, T>],
+) -> bool {
+    let start = boundary.first_point();
+    let eps = T::from_f64(1e-4).unwrap();
+    nodes
+        .iter()
+        .any(|node| (node.borrow().vertex().position() - &start).norm() < eps)
+}
+
+/// Point of the boundary between its first two intersections
+fn point_after_first<T: FloatingPoint, C: TrimRange<T, U3>>(
+    boundary: &C,
+    nodes: &[VertexNode<'_, T>],
+) -> anyhow::Result<Point2<T>> {
+    let range = (
+        nodes[0].borrow().vertex().parameter(),
+        nodes[1].borrow().vertex().parameter(),
+    );
+    let pieces = boundary.try_trim_range(range)?;
+    let piece = pieces
+        .first()
+        .ok_or_else(|| anyhow::anyhow!("No curve between the intersections"))?;
+    let (start, end) = piece.knots_domain();
+    Ok(piece.point_at((start + end) * T::from_f64(0.5).unwrap()))
+}
+
 /// Boolean operation for two curves.
 /// Base algorithm reference: Efficient clipping of arbitrary polygons (https://www.inf.usi.ch/hormann/papers/Greiner.1998.ECO.pdf)
 pub fn clip<'a, T: FloatingPoint, S, C, O: Clone>(
@@ -239,8 +271,17 @@ where
 
     // println!("clip contains subject: {}, subject contains clip: {}", clip_contains_subject, subject_contains_clip);
 
-    let mut a_flag = !clip_contains_subject;
-    let mut b_flag = !subject_contains_clip;
+    // a boundary enters the other at its first intersection if it starts outside of it
+    let mut a_flag = if starts_at_intersection(subject, &a) {
+        clip.contains(&point_after_first(subject, &a)?, option.clone())?
+    } else {
+        !clip_contains_subject
+    };
+    let mut b_flag = if starts_at_intersection(clip, &b) {
+        subject.contains(&point_after_first(clip, &b)?, option.clone())?
+    } else {
+        !subject_contains_clip
+    };
 
     a.iter().for_each(|list| {
         let mut node = list.borrow_mut();
diff --git a/src/trim/mod.rs b/src/trim/mod.rs
index 0c8e8e1..0bcdfbf 100644
--- a/src/trim/mod.rs
+++ b/src/trim/mod.rs
@@ -28,7 +28,12 @@ where
         } else {
             let (head, tail) = self.try_split(min)?;
             let (_, tail2) = tail.try_split(max)?;
+            // a range that ends at the start (or starts at the end) of the curve leaves an empty piece there
+            let eps = T::default_epsilon();
             vec![tail2, head]
+                .into_iter()
+                .filter(|piece| piece.knots_domain_interval() > eps)
+                .collect_vec()
         };
 
         Ok(curves)
-- 
2.43.0


From 36fbd8f20c8f6fd231e7bd392e8f5f7cacf04309 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:30:53 +0000
Subject: [PATCH 32/32] fix: project trimming curves along directions of any
 length, however the curve is slanted

---
 src/surface/trimmed_surface.rs | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/src/surface/trimmed_surface.rs b/src/surface/trimmed_surface.rs
index ce9da69..a91cfdb 100644
--- a/src/surface/trimmed_surface.rs
+++ b/src/surface/trimmed_surface.rs
@@ -1,7 +1,7 @@
 use std::cmp::Ordering;
 
 use argmin::core::ArgminFloat;
-use nalgebra::{ComplexField, Matrix3, Matrix4, Point3, Vector3, U3};
+use nalgebra::{Matrix3, Matrix4, Point3, Vector3, U3};
 
 use crate::{
     curve::{NurbsCurve2D, NurbsCurve3D},
@@ -125,8 +125,11 @@ fn try_project_curve<T: FloatingPoint + ArgminFloat>(
 ) -> anyhow::Result<NurbsCurve2D<T>> {
     let b0: BoundingBox<T, U3> = surface.into();
     let b1: BoundingBox<T, U3> = curve.into();
-    let l0 = ComplexField::abs(b0.size().dot(direction));
-    let l1 = ComplexField::abs(b1.size().dot(direction));
+    let direction = direction.normalize();
+    // lengths of the boxes along the direction
+    let extent = direction.abs();
+    let l0 = b0.size().dot(&extent);
+    let l1 = b1.size().dot(&extent);
     let ray_length = (b0.center() - b1.center()).norm() + l0 + l1;
     let offset = direction * T::one();
     let weights = curve.weights();
-- 
2.43.0

