From e463003cb7d758cfc02b035f90f457add6e52bbb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:12:37 +0000
Subject: [PATCH 01/13] fix: split a line segment at the point between its ends

The split point was interpolated with the direction reversed, so it lay
outside the segment.
---
 src/line.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/line.rs b/src/line.rs
index a752db3..d422de2 100644
--- a/src/line.rs
+++ b/src/line.rs
@@ -25,7 +25,7 @@ where
 
     pub fn split(&self, t: P::Scalar) -> (Self, Self) {
         // compute the split point by interpolation
-        let ctrl_ab = self.start + (self.start - self.end) * t;
+        let ctrl_ab = self.start + (self.end - self.start) * t;
 
         (
             LineSegment {
-- 
2.43.0


From 7a582587a4ea290e796dbe789c9d86aad38e2fcb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:12:37 +0000
Subject: [PATCH 02/13] fix: clamp the projection beyond the end of a line
 segment to its end

Points projecting past the end were measured against the start.
---
 src/line.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/line.rs b/src/line.rs
index d422de2..924c036 100644
--- a/src/line.rs
+++ b/src/line.rs
@@ -65,7 +65,7 @@ where
             //         .zip(v2.into_iter())
             //         .map(|(x1, x2)| x1 * x2)
             //         .sum::<P::Scalar>();
-            let mut t = P::Scalar::from(0.0);
+            let mut t = P::Scalar::from(1.0);
             if dot / l2 < P::Scalar::from(1.0) {
                 t = dot / l2;
             }
-- 
2.43.0


From 8cd32e8f4c63c4557ba7d4ead4f97aa395ad777d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:13:09 +0000
Subject: [PATCH 03/13] fix: use t squared in the first weight of the cubic
 direct derivative

---
 src/cubic_bezier.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/cubic_bezier.rs b/src/cubic_bezier.rs
index 98ebf19..a48a941 100644
--- a/src/cubic_bezier.rs
+++ b/src/cubic_bezier.rs
@@ -137,7 +137,7 @@ where
     /// This function can cause out of bounds panic when axis is larger than dimension of P
     pub fn dd(&self, t: P::Scalar, axis: usize) -> P::Scalar {
         let t2 = t * t;
-        let c0 = t * -3.0 + t * 6.0 - 3.0;
+        let c0 = t2 * -3.0 + t * 6.0 - 3.0;
         let c1 = t2 * 9.0 - t * 12.0 + 3.0;
         let c2 = t2 * -9.0 + t * 6.0;
         let c3 = t2 * 3.0;
-- 
2.43.0


From eb4d67d2906a9ddd428fc6ce9319f82461bb285c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:13:09 +0000
Subject: [PATCH 04/13] fix: include the first piece of a Bezier curve in its
 arc length

The loop started at 1, so the piece from 0 to 1/nsteps was missing and
arclen(1) was always zero.
---
 src/bezier.rs           | 2 +-
 src/cubic_bezier.rs     | 2 +-
 src/quadratic_bezier.rs | 2 +-
 3 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/bezier.rs b/src/bezier.rs
index c220691..ee8a9d3 100644
--- a/src/bezier.rs
+++ b/src/bezier.rs
@@ -241,7 +241,7 @@ where
     pub fn arclen(&self, nsteps: usize) -> P::Scalar {
         let stepsize = P::Scalar::from(1.0 / (nsteps as NativeFloat));
         let mut arclen: P::Scalar = 0.0.into();
-        for t in 1..nsteps {
+        for t in 0..nsteps {
             let t = P::Scalar::from(t as NativeFloat * 1.0 / (nsteps as NativeFloat));
             let p1 = self.eval(t);
             let p2 = self.eval(t + stepsize);
diff --git a/src/cubic_bezier.rs b/src/cubic_bezier.rs
index a48a941..0f8d404 100644
--- a/src/cubic_bezier.rs
+++ b/src/cubic_bezier.rs
@@ -76,7 +76,7 @@ where
     pub fn arclen(&self, nsteps: usize) -> P::Scalar {
         let stepsize = 1.0 / (nsteps as NativeFloat);
         let mut arclen = P::Scalar::from(0.0);
-        for t in 1..nsteps {
+        for t in 0..nsteps {
             let t = P::Scalar::from(t as NativeFloat) * 1.0 / (nsteps as NativeFloat);
             let p1 = self.eval_casteljau(t);
             let p2 = self.eval_casteljau(t + stepsize);
diff --git a/src/quadratic_bezier.rs b/src/quadratic_bezier.rs
index 1e46751..7ef5f7d 100644
--- a/src/quadratic_bezier.rs
+++ b/src/quadratic_bezier.rs
@@ -148,7 +148,7 @@ where
     pub fn arclen(&self, nsteps: usize) -> P::Scalar {
         let stepsize = P::Scalar::from(1.0 / (nsteps as NativeFloat));
         let mut arclen: P::Scalar = 0.0.into();
-        for t in 1..nsteps {
+        for t in 0..nsteps {
             let t = P::Scalar::from(t as NativeFloat * 1.0 / (nsteps as NativeFloat));
             let p1 = self.eval_casteljau(t);
             let p2 = self.eval_casteljau(t + stepsize);
-- 
2.43.0


From 206eae3091d22fa7f1188f9043029380554c0ee4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:13:28 +0000
Subject: [PATCH 05/13] fix: search the whole Bezier curve for the nearest
 point, and refine around it

The coarse pass left out t = 1 and started refining at 0.5 when the first
point was nearest. The fine pass scaled its offsets so that it moved away
from the coarse minimum, past the ends of the curve as well, and replaced
the parameter it searches around by an offset.
---
 src/bezier.rs           | 15 ++++++++-------
 src/cubic_bezier.rs     | 15 ++++++++-------
 src/quadratic_bezier.rs | 14 ++++++++------
 3 files changed, 24 insertions(+), 20 deletions(-)

diff --git a/src/bezier.rs b/src/bezier.rs
index ee8a9d3..0b85c14 100644
--- a/src/bezier.rs
+++ b/src/bezier.rs
@@ -88,10 +88,10 @@ where
     /// 2. fine search around the minimum yielded by the coarse search
     pub fn distance_to_point(&self, point: P) -> P::Scalar {
         let nsteps: usize = 64;
-        let mut tmin: P::Scalar = 0.5.into();
+        let mut tmin: P::Scalar = 0.0.into();
         let mut dmin: P::Scalar = (point - self.control_points[0]).squared_length();
         // 1. coarse pass
-        for i in 0..nsteps {
+        for i in 0..=nsteps {
             // calculate next step value
             let t: P::Scalar =
                 (i as NativeFloat * 1.0 as NativeFloat / (nsteps as NativeFloat)).into();
@@ -105,12 +105,13 @@ where
         // 2. fine pass
         for i in 0..nsteps {
             // calculate next step value ( a 64th of a 64th from first step)
-            let t: P::Scalar =
-                (i as NativeFloat * 1.0 as NativeFloat / ((nsteps * nsteps) as NativeFloat)).into();
-            // calculate distance to candidate centered around tmin from before
-            let candidate: P = self.eval(tmin + t - t * (nsteps as NativeFloat / 2.0));
+            // centered around the minimum from the coarse pass and kept on the curve
+            let offset = (i as NativeFloat - nsteps as NativeFloat / 2.0)
+                / ((nsteps * nsteps) as NativeFloat);
+            let t = (tmin + offset).max(0.0.into()).min(1.0.into());
+            // calculate distance to candidate
+            let candidate: P = self.eval(t);
             if (candidate - point).squared_length() < dmin {
-                tmin = t;
                 dmin = (candidate - point).squared_length();
             }
         }
diff --git a/src/cubic_bezier.rs b/src/cubic_bezier.rs
index 0f8d404..de8a28b 100644
--- a/src/cubic_bezier.rs
+++ b/src/cubic_bezier.rs
@@ -192,10 +192,10 @@ where
     /// 2. fine search around the minimum yielded by the coarse search
     pub fn distance_to_point(&self, point: P) -> P::Scalar {
         let nsteps: usize = 64;
-        let mut tmin: P::Scalar = 0.5.into();
+        let mut tmin: P::Scalar = 0.0.into();
         let mut dmin: P::Scalar = (point - self.start).squared_length();
         // 1. coarse pass
-        for i in 0..nsteps {
+        for i in 0..=nsteps {
             // calculate next step value
             let t: P::Scalar =
                 (i as NativeFloat * 1.0 as NativeFloat / (nsteps as NativeFloat)).into();
@@ -209,12 +209,13 @@ where
         // 2. fine pass
         for i in 0..nsteps {
             // calculate next step value ( a 64th of a 64th from first step)
-            let t: P::Scalar =
-                (i as NativeFloat * 1.0 as NativeFloat / ((nsteps * nsteps) as NativeFloat)).into();
-            // calculate distance to candidate centered around tmin from before
-            let candidate: P = self.eval(tmin + t - t * (nsteps as NativeFloat / 2.0));
+            // centered around the minimum from the coarse pass and kept on the curve
+            let offset = (i as NativeFloat - nsteps as NativeFloat / 2.0)
+                / ((nsteps * nsteps) as NativeFloat);
+            let t = (tmin + offset).max(0.0.into()).min(1.0.into());
+            // calculate distance to candidate
+            let candidate: P = self.eval(t);
             if (candidate - point).squared_length() < dmin {
-                tmin = t;
                 dmin = (candidate - point).squared_length();
             }
         }
diff --git a/src/quadratic_bezier.rs b/src/quadratic_bezier.rs
index 7ef5f7d..23fe60f 100644
--- a/src/quadratic_bezier.rs
+++ b/src/quadratic_bezier.rs
@@ -198,10 +198,10 @@ where
     /// 2. fine search around the minimum yielded by the coarse search
     pub fn distance_to_point(&self, point: P) -> P::Scalar {
         let nsteps: usize = 64;
-        let mut tmin: P::Scalar = 0.5.into();
+        let mut tmin: P::Scalar = 0.0.into();
         let mut dmin: P::Scalar = (point - self.start).squared_length();
         // 1. coarse pass
-        for i in 0..nsteps {
+        for i in 0..=nsteps {
             // calculate next step value
             let t: P::Scalar = (i as NativeFloat * 1.0 as NativeFloat / (nsteps as NativeFloat)).into();
             // calculate distance to candidate
@@ -214,11 +214,13 @@ where
         // 2. fine pass 
         for i in 0..nsteps {
             // calculate next step value ( a 64th of a 64th from first step)
-            let t: P::Scalar = (i as NativeFloat * 1.0 as NativeFloat / ((nsteps*nsteps) as NativeFloat)).into();
-            // calculate distance to candidate centered around tmin from before
-            let candidate: P = self.eval(tmin + t - t*(nsteps as NativeFloat/ 2.0) );
+            // centered around the minimum from the coarse pass and kept on the curve
+            let offset = (i as NativeFloat - nsteps as NativeFloat / 2.0)
+                / ((nsteps * nsteps) as NativeFloat);
+            let t = (tmin + offset).max(0.0.into()).min(1.0.into());
+            // calculate distance to candidate
+            let candidate: P = self.eval(t);
             if (candidate - point).squared_length() < dmin {
-                tmin = t;
                 dmin = (candidate - point).squared_length();
             }
         }
-- 
2.43.0


From ece2cb0a7c3299009724d2fd604fb4ed5edc20f5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:13:28 +0000
Subject: [PATCH 06/13] fix: compute the roots of nearly linear quadratics
 without cancellation

The textbook formula loses the smaller root when the leading coefficient
is small, which made bounding boxes miss the extremum.
---
 src/quadratic_bezier.rs | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/src/quadratic_bezier.rs b/src/quadratic_bezier.rs
index 23fe60f..7328a00 100644
--- a/src/quadratic_bezier.rs
+++ b/src/quadratic_bezier.rs
@@ -182,9 +182,15 @@ where
         // is quadratic equation
         let delta = b * b - a * c * 4.0;
         if delta > 0.0.into() {
+            // add numbers of the same sign only, so that no root cancels when a is small
             let sqrt_delta = delta.sqrt();
-            result.push((-b - sqrt_delta) / (a * 2.0));
-            result.push((-b + sqrt_delta) / (a * 2.0));
+            let q = if b < 0.0.into() {
+                (sqrt_delta - b) / 2.0
+            } else {
+                (-b - sqrt_delta) / 2.0
+            };
+            result.push(q / a);
+            result.push(c / q);
         } else if delta.abs() < EPSILON.into() {
             result.push(-b / (a * 2.0));
         }
-- 
2.43.0


From 5226eb5642f322142f95adb77a72b207c7216686 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:13:28 +0000
Subject: [PATCH 07/13] fix: reject NaN knots when constructing a B-spline

---
 src/bspline.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/bspline.rs b/src/bspline.rs
index ebb0c5d..c17134c 100644
--- a/src/bspline.rs
+++ b/src/bspline.rs
@@ -84,7 +84,8 @@ where
         } else if knots.len() > control_points.len() + 1 + D {
             Err(BSplineError::TooManyKnots)
         // if knots array is not non-decreasing
-        } else if knots.windows(2).any(|w| w[0] > w[1]) {
+        // (a NaN is not in order with anything)
+        } else if knots.windows(2).any(|w| w[0] > w[1]) || knots.iter().any(|k| k.is_nan()) {
             Err(BSplineError::DecreasingKnots)
         } else {
             let is_clamped_front = knots[0..=D]
-- 
2.43.0


From e1086913b336e0c10e69a1c69aad14e8dd2c2b3b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:13:28 +0000
Subject: [PATCH 08/13] fix: use all D+1 control points of the span in de
 Boor's algorithm

The last one stayed at the origin.
---
 src/bspline.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/bspline.rs b/src/bspline.rs
index c17134c..9cc33cd 100644
--- a/src/bspline.rs
+++ b/src/bspline.rs
@@ -260,7 +260,7 @@ where
 
         // Copy the control points needed for the first iteration
         // For a B-Spline of degree D, D+1 control points in the knot span contribute to the result
-        for j in 0..D {
+        for j in 0..=D {
             d[j] = self.control_points[j + k - D];
         }
 
-- 
2.43.0


From 6e70b8b0333b139d1a76f16fec1a6ba2d242fadb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:14:25 +0000
Subject: [PATCH 09/13] fix: return the last control point only where a
 B-spline's end is clamped

A spline whose end is not clamped does not pass through it.
---
 src/bspline.rs | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/src/bspline.rs b/src/bspline.rs
index 9cc33cd..9af0583 100644
--- a/src/bspline.rs
+++ b/src/bspline.rs
@@ -243,8 +243,13 @@ where
     where
         [(); D + 1]: Sized,
     {
-        // Special case when t equals the last knot value
-        if t == self.knots[self.control_points.len()] {
+        // Special case when t equals the last knot value (of a clamped end)
+        if t == self.knots[self.control_points.len()]
+            && matches!(
+                self.knot_kind,
+                KnotVectorKind::Clamped | KnotVectorKind::ClampedEnd
+            )
+        {
             return Ok(self.control_points[self.control_points.len() - 1]);
         }
 
-- 
2.43.0


From f5696e5721e5fa0997fe92cc4a1c875bb27be915 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:14:25 +0000
Subject: [PATCH 10/13] fix: restrict B-splines clamped at one end to the
 domain where they are defined

The domain of every B-spline is knots[D] to knots[C]. The unclamped end
used the outermost knot instead, where eval panicked or returned the
wrong point.
---
 src/bspline.rs | 26 +++++++++++++-------------
 1 file changed, 13 insertions(+), 13 deletions(-)

diff --git a/src/bspline.rs b/src/bspline.rs
index 9af0583..fe3b878 100644
--- a/src/bspline.rs
+++ b/src/bspline.rs
@@ -154,13 +154,13 @@ where
     }
 
     fn knot_domain_clamped_start(&self) -> (P::Scalar, P::Scalar) {
-        // Start from knots[D], end at knots[knots.len() - 1]
-        (self.knots[D], self.knots[self.knots.len() - 1])
+        // Start from knots[D], end at knots[C] (C = K - D - 1)
+        (self.knots[D], self.knots[self.knots.len() - 1 - D])
     }
 
     fn knot_domain_clamped_end(&self) -> (P::Scalar, P::Scalar) {
-        // Start from knots[0], end at knots[knots.len() - 1 - D] (C = K - D - 1)
-        (self.knots[0], self.knots[self.knots.len() - 1 - D])
+        // Start from knots[D], end at knots[C] (C = K - D - 1)
+        (self.knots[D], self.knots[self.knots.len() - 1 - D])
     }
 
     // Returns the knot domain for a clamped B-Spline
@@ -374,21 +374,20 @@ where
     fn knot_span_start_for_t_clamped_start(&self, t: P::Scalar) -> Option<usize> {
         let n = self.control_points.len() - 1; // n = number of control points - 1
         let p = D; // Degree of the spline
-        let m = self.knots.len() - 1; // Last index of the knot vector
 
-        // Special case when t equals the last knot value
-        if t == self.knots[m] {
+        // Special case when t equals knots[n + 1]
+        if t == self.knots[n + 1] {
             return Some(n);
         }
 
-        // Valid parameter domain is from knots[p] to knots[m]
-        if t < self.knots[p] || t > self.knots[m] {
+        // Valid parameter domain is from knots[p] to knots[n + 1]
+        if t < self.knots[p] || t > self.knots[n + 1] {
             return None;
         }
 
         // Initialize binary search indices
         let mut low = p;
-        let mut high = m - 1; // Since we compare t with knots[mid + 1], high should be m - 1
+        let mut high = n; // Since we compare t with knots[mid + 1], high should be n
 
         // Binary search to find the knot span
         while low <= high {
@@ -407,19 +406,20 @@ where
 
     fn knot_span_start_for_t_clamped_end(&self, t: P::Scalar) -> Option<usize> {
         let n = self.control_points.len() - 1; // n = number of control points - 1
+        let p = D; // Degree of the spline
 
         // Special case when t equals knots[n + 1]
         if t == self.knots[n + 1] {
             return Some(n);
         }
 
-        // Valid parameter domain is from knots[0] to knots[n + 1]
-        if t < self.knots[0] || t > self.knots[n + 1] {
+        // Valid parameter domain is from knots[p] to knots[n + 1]
+        if t < self.knots[p] || t > self.knots[n + 1] {
             return None;
         }
 
         // Initialize binary search indices
-        let mut low = 0;
+        let mut low = p;
         let mut high = n; // Since we compare t with knots[mid + 1], high should be n
 
         // Binary search to find the knot span
-- 
2.43.0


From aa147ec7191cbd63b6ad9b5c0a1125d9a11c985c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:14:25 +0000
Subject: [PATCH 11/13] fix: find the knot span that contains t in unclamped
 B-splines

The search stopped at the first span that ends after t, wherever it
starts, and read past the end of the knot vector.
---
 src/bspline.rs | 22 ++++++++++++++--------
 1 file changed, 14 insertions(+), 8 deletions(-)

diff --git a/src/bspline.rs b/src/bspline.rs
index fe3b878..9d73486 100644
--- a/src/bspline.rs
+++ b/src/bspline.rs
@@ -321,18 +321,24 @@ where
 
     /// Return the index of the start of the knot span for given `t` for an unclamped B-Spline.
     /// This is the index of the first element that satisfies:
-    ///     knots[i] <= t < knots[i+1]
+    ///     knots[i] <= t < knots[i+1] where i >= degree and i < knots.len() - degree - 1
     /// Because the knot vector is non-decreasing, this function uses binary search.
     /// If no element greater than the value passed is found, the function returns None.
     fn knot_span_start_for_t_unclamped(&self, t: P::Scalar) -> Option<usize> {
-        let mut first = 0usize;
-        let mut step;
-        let mut count = self.knots.len() as isize;
+        let n = self.control_points.len() - 1; // n = number of control points - 1
+
+        // Special case when t equals the end of the domain
+        if t == self.knots[n + 1] {
+            return Some(n);
+        }
+
+        // The first span of the domain starts at knots[D], the last one at knots[n]
+        let mut first = D;
+        let mut count = n + 1 - D;
         while count > 0 {
-            step = count / 2;
-            let it = first + step as usize;
-            if t < self.knots[it + 1] || (it + 1 == self.knots.len() - 2 && t == self.knots[it + 1])
-            {
+            let step = count / 2;
+            let it = first + step;
+            if t >= self.knots[it] && t < self.knots[it + 1] {
                 return Some(it);
             }
             if t >= self.knots[it] {
-- 
2.43.0


From 6d5605be02f3f920c58c6960da20f380b151ba6b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:14:43 +0000
Subject: [PATCH 12/13] fix: measure the arc length of a B-spline over its own
 domain

The step was scaled to [0,1] instead of the knot domain, and the loop ran
past the end, where the curve was taken to be at the origin.
---
 src/bspline.rs | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/src/bspline.rs b/src/bspline.rs
index 9d73486..08aa9f2 100644
--- a/src/bspline.rs
+++ b/src/bspline.rs
@@ -449,12 +449,12 @@ where
     where
         [(); D + 1]: Sized,
     {
-        let stepsize = P::Scalar::from(1.0 / (nsteps as NativeFloat));
         let mut arclen: P::Scalar = 0.0.into();
         // evaluate the curve, t needs to be inside the knot domain!
         // we need to map [0...1] to kmin..kmax
         let (kmin, kmax) = self.knot_domain();
-        for t in 0..=nsteps {
+        let stepsize = (kmax - kmin) / (nsteps as NativeFloat);
+        for t in 0..nsteps {
             let t = kmin
                 + (P::Scalar::from(t as NativeFloat) / P::Scalar::from(nsteps as NativeFloat))
                     * (kmax - kmin);
@@ -462,7 +462,8 @@ where
                 // should never happen as we control the t values passed to eval()
                 P::default()
             });
-            let p2 = self.eval(t + stepsize).unwrap_or_else(|_| {
+            // (rounding must not carry t past the end of the domain)
+            let p2 = self.eval((t + stepsize).min(kmax)).unwrap_or_else(|_| {
                 // should never happen as we control the t values passed to eval()
                 P::default()
             });
-- 
2.43.0


From 5708ea0c294672bbb946e4ff71817f77d1851d3b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:15:13 +0000
Subject: [PATCH 13/13] fix: give the derivative of a B-spline the knots of its
 degree

It kept the knot vector of the original, two knots too many, so that it
could not be evaluated on the right domain. Its type changes accordingly.
---
 src/bspline.rs | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/src/bspline.rs b/src/bspline.rs
index 08aa9f2..b4bdbca 100644
--- a/src/bspline.rs
+++ b/src/bspline.rs
@@ -474,14 +474,16 @@ where
 
     /// Returns the derivative curve of self which has N-1 control points.
     /// The derivative of an nth degree B-Spline curve is an (n-1)th degree (d) B-Spline curve,
-    /// with the same knot vector, and new control points Q0...Qn-1 derived from the
+    /// with the same knot vector less its first and last knot, and new control points Q0...Qn-1 derived from the
     /// original control points Pi as:
     ///                 d
     /// Qi =    ----------------- (P[i+1]-P[i])
     ///         k[i+d+1] - k[i+1].
     /// with degree = curve_order - 1
     /// TODO test & verify!
-    pub fn derivative(&self) -> BSpline<P, K, { C - 1 }, { D - 1 }> {
+    pub fn derivative(&self) -> BSpline<P, { K - 2 }, { C - 1 }, { D - 1 }> {
+        let mut new_knots = [P::Scalar::default(); K - 2];
+        new_knots.copy_from_slice(&self.knots[1..K - 1]);
         let mut new_points: [P; C - 1] = [P::default(); C - 1];
         for (i, _) in self.control_points.iter().enumerate() {
             new_points[i] = (self.control_points[i + 1] - self.control_points[i])
@@ -491,7 +493,7 @@ where
             }
         }
         BSpline {
-            knots: self.knots,
+            knots: new_knots,
             knot_kind: self.knot_kind,
             control_points: new_points,
         }
-- 
2.43.0

