From 161a693713f1fb052376b55e134c4999e51df885 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:33:24 +0000
Subject: [PATCH 01/17] fix: Mat3::inverse divides every cofactor by the
 determinant and uses a symmetric singularity threshold

---
 lib/mat.rs | 14 +++++++-------
 1 file changed, 7 insertions(+), 7 deletions(-)

diff --git a/lib/mat.rs b/lib/mat.rs
index b524338..cf8dc2c 100644
--- a/lib/mat.rs
+++ b/lib/mat.rs
@@ -1149,29 +1149,29 @@ macro_rules! define_mat3 {
                     + self.index(2, 0)
                         * (self.index(0, 1) * self.index(1, 2)
                             - self.index(1, 1) * self.index(0, 2));
-                if (determinant < 0.0000000001) && (determinant > -0.00000000001) {
+                if (determinant < 0.0000000001) && (determinant > -0.0000000001) {
                     return None;
                 }
                 let t = self.transpose();
                 let mut out = *self;
                 *out.index_mut(0, 0) =
-                    t.index(1, 1) * t.index(2, 2) - t.index(2, 1) * t.index(1, 2) / determinant;
+                    (t.index(1, 1) * t.index(2, 2) - t.index(2, 1) * t.index(1, 2)) / determinant;
                 *out.index_mut(1, 0) =
                     -(t.index(0, 1) * t.index(2, 2) - t.index(2, 1) * t.index(0, 2)) / determinant;
                 *out.index_mut(2, 0) =
-                    t.index(0, 1) * t.index(1, 2) - t.index(1, 1) * t.index(0, 2) / determinant;
+                    (t.index(0, 1) * t.index(1, 2) - t.index(1, 1) * t.index(0, 2)) / determinant;
                 *out.index_mut(0, 1) =
-                    t.index(1, 0) * t.index(2, 2) - t.index(2, 0) * t.index(1, 2) / determinant;
+                    (t.index(1, 0) * t.index(2, 2) - t.index(2, 0) * t.index(1, 2)) / determinant;
                 *out.index_mut(1, 1) =
                     -(t.index(0, 0) * t.index(2, 2) - t.index(2, 0) * t.index(0, 2)) / determinant;
                 *out.index_mut(2, 1) =
-                    t.index(0, 0) * t.index(1, 2) - t.index(1, 0) * t.index(0, 2) / determinant;
+                    (t.index(0, 0) * t.index(1, 2) - t.index(1, 0) * t.index(0, 2)) / determinant;
                 *out.index_mut(0, 2) =
-                    t.index(1, 0) * t.index(2, 1) - t.index(2, 0) * t.index(1, 1) / determinant;
+                    (t.index(1, 0) * t.index(2, 1) - t.index(2, 0) * t.index(1, 1)) / determinant;
                 *out.index_mut(1, 2) =
                     -(t.index(0, 0) * t.index(2, 1) - t.index(2, 0) * t.index(0, 1)) / determinant;
                 *out.index_mut(2, 2) =
-                    t.index(0, 0) * t.index(1, 1) - t.index(1, 0) * t.index(0, 1) / determinant;
+                    (t.index(0, 0) * t.index(1, 1) - t.index(1, 0) * t.index(0, 1)) / determinant;
 
                 Some(out)
             }
-- 
2.43.0


From ab4532ee1a3406a8d9cac1e9e28cd9974a0edd31 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:33:25 +0000
Subject: [PATCH 02/17] fix: Mat4::inverse returns the inverse in the operand's
 layout instead of its transpose

---
 lib/mat.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/lib/mat.rs b/lib/mat.rs
index cf8dc2c..1ddfcbb 100644
--- a/lib/mat.rs
+++ b/lib/mat.rs
@@ -1524,6 +1524,7 @@ macro_rules! define_mat4 {
             }
             pub fn inverse(&self) -> Option<Mat4<$v_type>> {
                 let mut inv: Mat4<$v_type> = Default::default();
+                inv._is_row_major = self._is_row_major;
 
                 *inv.index_mut(0, 0) = self.index(1, 1) * self.index(2, 2) * self.index(3, 3)
                     - self.index(1, 1) * self.index(3, 2) * self.index(2, 3)
@@ -1652,7 +1653,7 @@ macro_rules! define_mat4 {
                     inv._val[i] = inv._val[i] * det_inv;
                 }
 
-                Some(inv.transpose())
+                Some(inv)
             }
         }
         impl i_comparable::IComparableError<$v_type> for Mat4<$v_type> {
-- 
2.43.0


From 1530f199ba8985ffb456d095a2b41cf5fa3974b1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:33:48 +0000
Subject: [PATCH 03/17] fix: Quat::ln takes the logarithm of the length and the
 angle acos(w/length)

---
 lib/quat.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/lib/quat.rs b/lib/quat.rs
index 64dd8c5..4cb0935 100644
--- a/lib/quat.rs
+++ b/lib/quat.rs
@@ -362,7 +362,7 @@ macro_rules! define_quat {
             #[allow(dead_code)]
             pub fn ln(&self) -> Quat<$v_type> {
                 let l = self.length();
-                let w_ln = self._w.ln();
+                let w_ln = l.ln();
                 //normalize x,y,z vector -> v/||v||
                 let vec_length = (self._x * self._x + self._y * self._y + self._z * self._z).sqrt();
                 assert!(vec_length != 0 as $v_type);
@@ -370,7 +370,7 @@ macro_rules! define_quat {
                 let vec_y = self._y / vec_length;
                 let vec_z = self._z / vec_length;
                 //scale x,y,z by acos( w/l )
-                let s = (w_ln / l).acos();
+                let s = (self._w / l).acos();
                 Quat {
                     _x: vec_x * s,
                     _y: vec_y * s,
-- 
2.43.0


From 5ee95a0714cfc0db20f7d7db7baffeaecacc99b3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:33:49 +0000
Subject: [PATCH 04/17] fix: slerp measures the angle to the sign-adjusted end
 quaternion

---
 lib/quat.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lib/quat.rs b/lib/quat.rs
index 4cb0935..41fb2f1 100644
--- a/lib/quat.rs
+++ b/lib/quat.rs
@@ -493,7 +493,7 @@ macro_rules! define_quat {
                     (1 as $v_type - t_clamp, t_clamp)
                 } else {
                     let sin_omega = (1 as $v_type - cos_omega * cos_omega).sqrt();
-                    let omega = sin_omega.atan2(cos_omega);
+                    let omega = sin_omega.atan2(cos_omega_adjust);
                     let inv_sin_omega = 1 as $v_type / sin_omega;
 
                     (
-- 
2.43.0


From 0e361b0314cd727173cb66dffe31208f4f101994 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:33:50 +0000
Subject: [PATCH 05/17] fix: to_rotation_matrix(false) lists entries by row, as
 Mat4::init expects

---
 lib/quat.rs | 16 ++++++++--------
 1 file changed, 8 insertions(+), 8 deletions(-)

diff --git a/lib/quat.rs b/lib/quat.rs
index 41fb2f1..9157080 100644
--- a/lib/quat.rs
+++ b/lib/quat.rs
@@ -174,16 +174,16 @@ macro_rules! define_quat {
                     ), //last row
                     _ => Mat4::<$v_type>::init(
                         [
-                            1 as $v_type - 2 as $v_type * (self._y * self._y + self._z * self._z), //first column
-                            2 as $v_type * (self._x * self._y + self._z * self._w),
-                            2 as $v_type * (self._x * self._z - self._y * self._w),
+                            1 as $v_type - 2 as $v_type * (self._y * self._y + self._z * self._z), //first row
+                            2 as $v_type * (self._x * self._y - self._z * self._w),
+                            2 as $v_type * (self._x * self._z + self._y * self._w),
                             0 as $v_type,
-                            2 as $v_type * (self._x * self._y - self._z * self._w), //second column
+                            2 as $v_type * (self._x * self._y + self._z * self._w), //second row
                             1 as $v_type - 2 as $v_type * (self._x * self._x + self._z * self._z),
-                            2 as $v_type * (self._z * self._y + self._x * self._w),
-                            0 as $v_type,
-                            2 as $v_type * (self._x * self._z + self._y * self._w), //third column
                             2 as $v_type * (self._y * self._z - self._x * self._w),
+                            0 as $v_type,
+                            2 as $v_type * (self._x * self._z - self._y * self._w), //third row
+                            2 as $v_type * (self._z * self._y + self._x * self._w),
                             1 as $v_type - 2 as $v_type * (self._x * self._x + self._y * self._y),
                             0 as $v_type,
                             0 as $v_type,
@@ -192,7 +192,7 @@ macro_rules! define_quat {
                             1 as $v_type,
                         ],
                         false,
-                    ), //last column
+                    ), //last row
                 }
             }
             #[allow(dead_code)]
-- 
2.43.0


From 1f6eb5f25505f0dc6622e5ab762075161df39fb0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:33:50 +0000
Subject: [PATCH 06/17] fix: to_translation_matrix keeps the identity rotation
 part and is the same matrix in both layouts

---
 lib/quat.rs | 18 +++++++++---------
 1 file changed, 9 insertions(+), 9 deletions(-)

diff --git a/lib/quat.rs b/lib/quat.rs
index 9157080..536248f 100644
--- a/lib/quat.rs
+++ b/lib/quat.rs
@@ -105,17 +105,17 @@ macro_rules! define_quat {
                 match row_major {
                     true => Mat4::<$v_type>::init(
                         [
-                            0 as $v_type,
+                            1 as $v_type,
                             0 as $v_type,
                             0 as $v_type,
                             self._x,
                             0 as $v_type,
-                            0 as $v_type,
+                            1 as $v_type,
                             0 as $v_type,
                             self._y,
                             0 as $v_type,
                             0 as $v_type,
-                            0 as $v_type,
+                            1 as $v_type,
                             self._z,
                             0 as $v_type,
                             0 as $v_type,
@@ -126,21 +126,21 @@ macro_rules! define_quat {
                     ),
                     _ => Mat4::<$v_type>::init(
                         [
+                            1 as $v_type,
                             0 as $v_type,
                             0 as $v_type,
+                            self._x,
                             0 as $v_type,
+                            1 as $v_type,
                             0 as $v_type,
+                            self._y,
                             0 as $v_type,
                             0 as $v_type,
+                            1 as $v_type,
+                            self._z,
                             0 as $v_type,
                             0 as $v_type,
                             0 as $v_type,
-                            0 as $v_type,
-                            0 as $v_type,
-                            0 as $v_type,
-                            self._x,
-                            self._y,
-                            self._z,
                             1 as $v_type,
                         ],
                         false,
-- 
2.43.0


From 1d6c5c5671f3a63317e11dfb6d9866d78d825426 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:34:07 +0000
Subject: [PATCH 07/17] fix: get_longest_axis compares extents in both
 directions

---
 lib/bound.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lib/bound.rs b/lib/bound.rs
index 5a3e473..7bfe3ca 100644
--- a/lib/bound.rs
+++ b/lib/bound.rs
@@ -92,7 +92,7 @@ impl AxisAlignedBBox {
             .max_by(|x, y| {
                 if x.1 < y.1 {
                     cmp::Ordering::Less
-                } else if x.1 < y.1 {
+                } else if x.1 > y.1 {
                     cmp::Ordering::Greater
                 } else {
                     cmp::Ordering::Equal
-- 
2.43.0


From 493c0c4ff752c62dc2fbb991e0b0d07c06ed27df Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:34:08 +0000
Subject: [PATCH 08/17] fix: point-point intersection honours the vicinity
 tolerance

---
 lib/point.rs | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/lib/point.rs b/lib/point.rs
index aafc3ce..c134bf8 100644
--- a/lib/point.rs
+++ b/lib/point.rs
@@ -37,7 +37,12 @@ impl IShape for Point3 {
     }
     // this shall test for intersection of bounding shapes first before procedding to test intersection using algorithms of higher complexity
     fn get_intersect(&self, other: &dyn IShape) -> (bool, Option<Mat3x1<f64>>) {
-        if !self.get_bound().intersect(other.get_bound()) {
+        // the bound of a point has no extent, so it must not pre-empt the tolerance of a point-point test
+        let is_point = match other.get_type() {
+            ShapeType::Point => true,
+            _ => false,
+        };
+        if !is_point && !self.get_bound().intersect(other.get_bound()) {
             return (false, None);
         } else {
             match other.get_type() {
-- 
2.43.0


From cd8261ce6083b49053dbb1188135080fb9104e37 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:34:09 +0000
Subject: [PATCH 09/17] fix: ray-point intersection projects on the direction
 instead of dividing by its components

---
 lib/ray.rs | 12 +++++++-----
 1 file changed, 7 insertions(+), 5 deletions(-)

diff --git a/lib/ray.rs b/lib/ray.rs
index 188d8a8..b6d423f 100644
--- a/lib/ray.rs
+++ b/lib/ray.rs
@@ -150,13 +150,15 @@ impl IShape for Ray3 {
                     let a_dir = self._dir;
                     let a_off = self._ori;
                     //a_dir * t + a_off = b_off
-                    //t = (b_off - a_off) / a_dir
-                    let t = b_off.minus(&a_off).unwrap().div(&a_dir).unwrap();
-                    if !self.within_vicinity(t[0], t[1]) || !self.within_vicinity(t[1], t[2]) {
+                    //t = dot( a_dir, b_off - a_off ), a_dir being of unit length
+                    let d = b_off.minus(&a_off).unwrap();
+                    let t = a_dir.dot(&d).unwrap();
+                    let residual = d.minus(&a_dir.scale(t).unwrap()).unwrap();
+                    if !self.within_vicinity(residual.magnitude().unwrap(), 0f64) {
                         return (false, None);
                     } else {
-                        if t[0] >= 0f64 {
-                            return (true, Some(a_dir.scale(t[0]).unwrap().plus(&a_off).unwrap()));
+                        if t >= 0f64 {
+                            return (true, Some(a_dir.scale(t).unwrap().plus(&a_off).unwrap()));
                         } else {
                             //the point is behind the ray origin and direction
                             return (false, None);
-- 
2.43.0


From b3dcee1b43ca3337428dd73743fc13275a888f75 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:34:35 +0000
Subject: [PATCH 10/17] fix: ray-ray intersection tests coplanarity against the
 offset and requires the crossing ahead of both origins

---
 lib/ray.rs | 15 ++++++++-------
 1 file changed, 8 insertions(+), 7 deletions(-)

diff --git a/lib/ray.rs b/lib/ray.rs
index b6d423f..5fb28a6 100644
--- a/lib/ray.rs
+++ b/lib/ray.rs
@@ -75,17 +75,16 @@ impl IShape for Ray3 {
                         ],
                     };
 
-                    let c = b_dir.minus(&a_dir).unwrap();
+                    let d = b_off.minus(&a_off).unwrap();
                     let v = a_dir.cross(&b_dir).unwrap();
 
-                    let dot_v_c = v.dot(&c).unwrap();
-                    if !self.within_vicinity(dot_v_c, 0f64) {
+                    let dot_v_d = v.dot(&d).unwrap();
+                    if !self.within_vicinity(dot_v_d, 0f64) {
                         //they are not in the same place, so no intersection occurs
                         return (false, None);
                     }
                     //test for colinearity
                     let zero: Mat3x1<f64> = Default::default();
-                    let d = b_off.minus(&a_off).unwrap();
                     if v.is_equal(&zero, 0.0001f64).unwrap() {
                         //lines are parallel
                         //check triangle area formed by points on ray a and b
@@ -126,9 +125,11 @@ impl IShape for Ray3 {
                         }
                     } else {
                         //solvable intersection exists
-                        let numerator = d.cross(&b_dir).unwrap();
-                        let t = numerator.magnitude().unwrap() / v.magnitude().unwrap();
-                        if t < 0f64 {
+                        //signed parameters of the crossing point along ray a and ray b
+                        let v_squared = v.dot(&v).unwrap();
+                        let t = d.cross(&b_dir).unwrap().dot(&v).unwrap() / v_squared;
+                        let s = d.cross(&a_dir).unwrap().dot(&v).unwrap() / v_squared;
+                        if t < 0f64 || s < 0f64 {
                             return (false, None);
                         } else {
                             return (
-- 
2.43.0


From 302f615fbca5bcc31988d0900a342d7669cf46c2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:34:36 +0000
Subject: [PATCH 11/17] fix: sphere-point intersection compares the distance
 with the radius

---
 lib/sphere.rs | 6 ++----
 1 file changed, 2 insertions(+), 4 deletions(-)

diff --git a/lib/sphere.rs b/lib/sphere.rs
index 70073e1..702ab81 100644
--- a/lib/sphere.rs
+++ b/lib/sphere.rs
@@ -81,10 +81,8 @@ impl IShape for Sphere {
                         ],
                     };
                     let d = b_off.minus(&self._ori).unwrap();
-                    for i in 0..3 {
-                        if d[i] > self._radius {
-                            return (false, None);
-                        }
+                    if d.magnitude().unwrap() > self._radius {
+                        return (false, None);
                     }
                     return (true, Some(b_off));
                 }
-- 
2.43.0


From ee698e2be34bbcf6b057f087f5980e3f65762b55 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:34:37 +0000
Subject: [PATCH 12/17] fix: sphere-plane intersection misses spheres far
 behind the plane

---
 lib/sphere.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lib/sphere.rs b/lib/sphere.rs
index 702ab81..69ab8ce 100644
--- a/lib/sphere.rs
+++ b/lib/sphere.rs
@@ -111,7 +111,7 @@ impl IShape for Sphere {
 
                     let k = b_nor.dot(&b_off).unwrap();
                     let t = b_nor.dot(&self._ori).unwrap() - k;
-                    if t > self._radius {
+                    if t.abs() > self._radius {
                         return (false, None);
                     } else {
                         return (
-- 
2.43.0


From fdf5e566c8d1fece630cdef066cf98c5a13d4f69 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:34:38 +0000
Subject: [PATCH 13/17] fix: prism-line intersection handles a zero-length
 segment

---
 lib/triprism.rs | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/lib/triprism.rs b/lib/triprism.rs
index 2a1f81c..ef0ba14 100644
--- a/lib/triprism.rs
+++ b/lib/triprism.rs
@@ -270,6 +270,10 @@ impl IShape for TriPrism {
 
                     let v = b.minus(&a).unwrap();
                     let mag = v.magnitude().unwrap();
+                    if mag == 0f64 {
+                        //zero-length segment: its only point is outside
+                        return (false, None);
+                    }
 
                     let r = Ray3::init(&[a[0], a[1], a[2]], &[v[0], v[1], v[2]]);
 
-- 
2.43.0


From 64c46f06d53b55f5165f572b3ab8c1cfbbdaaf51 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:35:20 +0000
Subject: [PATCH 14/17] fix: prism-line intersection does not test a facet's
 own collision point against that facet

---
 lib/triprism.rs | 11 +++++++----
 1 file changed, 7 insertions(+), 4 deletions(-)

diff --git a/lib/triprism.rs b/lib/triprism.rs
index ef0ba14..5d34085 100644
--- a/lib/triprism.rs
+++ b/lib/triprism.rs
@@ -340,15 +340,18 @@ impl IShape for TriPrism {
 
                     let mut intersect_point = None;
                     let mut is_inside = false;
-                    for i in facets.iter() {
-                        let res = r.get_intersect(i);
+                    for (i, facet) in facets.iter().enumerate() {
+                        let res = r.get_intersect(facet);
                         if res.0 {
                             let collide_point = res.1.unwrap();
                             let mag2 = collide_point.minus(&a).unwrap().magnitude().unwrap();
 
                             //one more check necesary for the candidate collision point
-                            let is_point_inside = tests.iter().all(|(vert, normal)| {
-                                !(collide_point.minus(vert).unwrap().dot(normal).unwrap() > 0.)
+                            //it lies on facet i by construction, so rounding must not decide that test
+                            let is_point_inside = tests.iter().enumerate().all(|(j, (vert, normal))| {
+                                j == i
+                                    || !(collide_point.minus(vert).unwrap().dot(normal).unwrap()
+                                        > 0.)
                             });
 
                             if !is_point_inside || mag2 > mag {
-- 
2.43.0


From 76aed5c76401e7d47b87378d1ee84fb0e93f7379 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:35:50 +0000
Subject: [PATCH 15/17] fix: GJK query rejects shapes separated along the
 initial direction

---
 lib/intersect_gjk.rs | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/lib/intersect_gjk.rs b/lib/intersect_gjk.rs
index 2959cff..762b63a 100644
--- a/lib/intersect_gjk.rs
+++ b/lib/intersect_gjk.rs
@@ -79,6 +79,10 @@ pub fn query_intersect(a: &dyn IShape, b: &dyn IShape) -> Option<bool> {
     let mut simplex = vec![];
     {
         let sup = support(a, b, &d).unwrap();
+        if !pass_minkowski_origin(&sup, &d) {
+            //the origin lies outside of the supporting plane
+            return Some(false);
+        }
         simplex.push(sup);
     }
 
-- 
2.43.0


From 244954592a28db545e68beccfefab58125e5cce6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:59:11 +0000
Subject: [PATCH 16/17] fix: Mat3::inverse has the cofactor signs of its middle
 column inverted

---
 lib/mat.rs | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/lib/mat.rs b/lib/mat.rs
index 1ddfcbb..189531a 100644
--- a/lib/mat.rs
+++ b/lib/mat.rs
@@ -1161,11 +1161,11 @@ macro_rules! define_mat3 {
                 *out.index_mut(2, 0) =
                     (t.index(0, 1) * t.index(1, 2) - t.index(1, 1) * t.index(0, 2)) / determinant;
                 *out.index_mut(0, 1) =
-                    (t.index(1, 0) * t.index(2, 2) - t.index(2, 0) * t.index(1, 2)) / determinant;
+                    -(t.index(1, 0) * t.index(2, 2) - t.index(2, 0) * t.index(1, 2)) / determinant;
                 *out.index_mut(1, 1) =
-                    -(t.index(0, 0) * t.index(2, 2) - t.index(2, 0) * t.index(0, 2)) / determinant;
+                    (t.index(0, 0) * t.index(2, 2) - t.index(2, 0) * t.index(0, 2)) / determinant;
                 *out.index_mut(2, 1) =
-                    (t.index(0, 0) * t.index(1, 2) - t.index(1, 0) * t.index(0, 2)) / determinant;
+                    -(t.index(0, 0) * t.index(1, 2) - t.index(1, 0) * t.index(0, 2)) / determinant;
                 *out.index_mut(0, 2) =
                     (t.index(1, 0) * t.index(2, 1) - t.index(2, 0) * t.index(1, 1)) / determinant;
                 *out.index_mut(1, 2) =
-- 
2.43.0


From 2e2f6c61c4015a33ca16aec3821a95a8aa0182fe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:40:06 +0000
Subject: [PATCH 17/17] fix: keep prism-line collision points that lie on an
 edge of the prism

---
 lib/triprism.rs | 13 +++++++++----
 1 file changed, 9 insertions(+), 4 deletions(-)

diff --git a/lib/triprism.rs b/lib/triprism.rs
index 5d34085..3cf4185 100644
--- a/lib/triprism.rs
+++ b/lib/triprism.rs
@@ -347,11 +347,16 @@ impl IShape for TriPrism {
                             let mag2 = collide_point.minus(&a).unwrap().magnitude().unwrap();
 
                             //one more check necesary for the candidate collision point
-                            //it lies on facet i by construction, so rounding must not decide that test
-                            let is_point_inside = tests.iter().enumerate().all(|(j, (vert, normal))| {
+                            //it lies on facet i by construction, and within rounding of a neighbouring facet
+                            //when it is on an edge, so only a distance above tolerance rules it out
+                            let is_point_inside = facets.iter().enumerate().all(|(j, other)| {
                                 j == i
-                                    || !(collide_point.minus(vert).unwrap().dot(normal).unwrap()
-                                        > 0.)
+                                    || !(collide_point
+                                        .minus(&other._offset)
+                                        .unwrap()
+                                        .dot(&other._normal)
+                                        .unwrap()
+                                        > self._vicinity)
                             });
 
                             if !is_point_inside || mag2 > mag {
-- 
2.43.0

