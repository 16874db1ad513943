From f9fb9876e4c532b8a35929b5dc1f63bfc6ebb38f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:41:18 +0000
Subject: [PATCH 01/39] fix: vec3/vec4 length in double precision

---
 cmmcore/vec.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/cmmcore/vec.h b/cmmcore/vec.h
index f00c74c..9c2cee7 100644
--- a/cmmcore/vec.h
+++ b/cmmcore/vec.h
@@ -415,7 +415,7 @@ struct vec3 {
     #else
     double sq=x*x+y*y+z*z;
     #endif
-    return sqrtf(sq);
+    return std::sqrt(sq);
   }
   void unitize() {
     if (const double l = length(); l <= std::numeric_limits<double>::epsilon() ||
@@ -948,7 +948,7 @@ struct vec4 {
     return res;
     #else
     double sq=x*x+y*y+z*z+w*w;
-    return sqrtf(sq);
+    return std::sqrt(sq);
     #endif
 
   }
-- 
2.43.0


From 4ac517ecffd974ae613a29e11dc7dc94f72a1375 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:41:33 +0000
Subject: [PATCH 02/39] fix: unitize also normalises vectors shorter than one

---
 cmmcore/vec.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/cmmcore/vec.h b/cmmcore/vec.h
index 9c2cee7..9e09fe6 100644
--- a/cmmcore/vec.h
+++ b/cmmcore/vec.h
@@ -419,7 +419,7 @@ struct vec3 {
   }
   void unitize() {
     if (const double l = length(); l <= std::numeric_limits<double>::epsilon() ||
-        l - 1 <= std::numeric_limits<double>::epsilon()) {
+        std::abs(l - 1) <= std::numeric_limits<double>::epsilon()) {
     } else {
       x/=l;
       y/=l;
@@ -954,7 +954,7 @@ struct vec4 {
   }
   void unitize() {
     if (const double l = length(); l <= std::numeric_limits<double>::epsilon() ||
-        l - 1 <= std::numeric_limits<double>::epsilon()) {
+        std::abs(l - 1) <= std::numeric_limits<double>::epsilon()) {
     } else
     {
       x/=(w*l);
-- 
2.43.0


From 3097a952de3f743cc90b220d805dfb9139e9b10a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:42:08 +0000
Subject: [PATCH 03/39] fix: vec4 dot product includes w on the portable path
 (as it does with NEON)

---
 cmmcore/vec.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/cmmcore/vec.h b/cmmcore/vec.h
index 9e09fe6..5fc40ae 100644
--- a/cmmcore/vec.h
+++ b/cmmcore/vec.h
@@ -842,7 +842,7 @@ struct vec4 {
 
 #else
 
-    return x * b.x + y * b.y + z * b.z;
+    return x * b.x + y * b.y + z * b.z + w * b.w;
 #endif
   }
 
-- 
2.43.0


From 8ea8502306087ce98d760bb006f97f306bdd9078 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:42:20 +0000
Subject: [PATCH 04/39] fix: vec4 cross product of the projected points

---
 cmmcore/vec.h | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/cmmcore/vec.h b/cmmcore/vec.h
index 5fc40ae..82e51cd 100644
--- a/cmmcore/vec.h
+++ b/cmmcore/vec.h
@@ -857,9 +857,9 @@ struct vec4 {
   void cross( const vec4& b, vec4& result ) const {
     auto v1=to_vec3();
     auto v2=b.to_vec3();
-    result.x = v1.y * v2.z -  v2.z *  v2.y;
-    result.y=  v1.z * v2.x  - v2.x * v2.z;
-    result.z=  v1.x * v2.y  - v2.y * v2.x;
+    result.x = v1.y * v2.z -  v1.z *  v2.y;
+    result.y=  v1.z * v2.x  - v1.x * v2.z;
+    result.z=  v1.x * v2.y  - v1.y * v2.x;
     result.w=1.;
   }
   void cross( const vec3& b, vec3& result ) const {
-- 
2.43.0


From c5642be286c498ec212f567c24481101d99e70a3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:42:30 +0000
Subject: [PATCH 05/39] fix: vec4::add sets w

---
 cmmcore/vec.h | 1 +
 1 file changed, 1 insertion(+)

diff --git a/cmmcore/vec.h b/cmmcore/vec.h
index 82e51cd..acc6234 100644
--- a/cmmcore/vec.h
+++ b/cmmcore/vec.h
@@ -929,6 +929,7 @@ struct vec4 {
     result.x=x + b.x;
     result.y=y + b.y;
     result.z=z + b.z;
+    result.w=w + b.w;
 #endif
 
   }
-- 
2.43.0


From 5bbaeca4755a91df5bde6780465c5c6e91c74c72 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:42:43 +0000
Subject: [PATCH 06/39] fix: dot_product writes one element past the end

---
 cmmcore/vec.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/cmmcore/vec.h b/cmmcore/vec.h
index acc6234..ce175e0 100644
--- a/cmmcore/vec.h
+++ b/cmmcore/vec.h
@@ -599,7 +599,7 @@ inline void dot_product(const Vec3& v, const Vectors3& vecs, double* result) {
 
 #else
 inline void dot_product(const vec3& v, const Vectors3& vecs, double* result) {
-  for (int i=0; i  <= vecs.size; i ++) {
+  for (size_t i=0; i  < vecs.size; i ++) {
     result[i]=v.dot(vecs.x[i],vecs.y[i],vecs.z[i]);
   }
 }
-- 
2.43.0


From bb4518ad033e4685d879e62b650865f66fec5610 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:42:54 +0000
Subject: [PATCH 07/39] fix: mag2 and dist compute the squared norm and the
 distance

---
 cmmcore/vec.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/cmmcore/vec.h b/cmmcore/vec.h
index ce175e0..87d91a7 100644
--- a/cmmcore/vec.h
+++ b/cmmcore/vec.h
@@ -607,7 +607,7 @@ inline void dot_product(const vec3& v, const Vectors3& vecs, double* result) {
 #define sqr(x) ((x)*(x))
 double mag2(const vec3 &a)
 {
-  double l=std::sqrt(a[0]);
+  double l=sqr(a[0]);
   for(unsigned int i=1; i<3; ++i) l+=sqr(a[i]);
   return l;
 }
@@ -617,7 +617,7 @@ inline double dot(const vec3& a, const vec3& b) {
 }
 inline double dist(const vec3& a, const vec3& b) {
 
-  return  std::sqrt((a.x-b.x)+(a.y-b.y)+(a.z-b.z));;
+  return  std::sqrt(sqr(a.x-b.x)+sqr(a.y-b.y)+sqr(a.z-b.z));
 }
 inline double dist2(const vec3& a, const vec3& b) {
 
-- 
2.43.0


From 67a6f35516d92982c6467017fa68695042336800 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:43:07 +0000
Subject: [PATCH 08/39] fix: vec4 equality compares w

---
 cmmcore/vec.h | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/cmmcore/vec.h b/cmmcore/vec.h
index 87d91a7..b6ec2f4 100644
--- a/cmmcore/vec.h
+++ b/cmmcore/vec.h
@@ -762,7 +762,8 @@ struct vec4 {
 
     return std::abs(x - other.x) < std::numeric_limits<double>::epsilon() &&
            std::abs(y - other.y) < std::numeric_limits<double>::epsilon()&&
-           std::abs(z - other.z) < std::numeric_limits<double>::epsilon();
+           std::abs(z - other.z) < std::numeric_limits<double>::epsilon()&&
+           std::abs(w - other.w) < std::numeric_limits<double>::epsilon();
   }
   /**
  * @brief Access vector components by index.
-- 
2.43.0


From 2c617c86a3436ce83ffa7b3c7348eb879c4d7b9d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:46:06 +0000
Subject: [PATCH 09/39] fix: Matrix2x2 built from a nested initializer list
 keeps its values

---
 cmmcore/matrix.h | 18 +++++++++++++++++-
 1 file changed, 17 insertions(+), 1 deletion(-)

diff --git a/cmmcore/matrix.h b/cmmcore/matrix.h
index e6acf76..1272b2c 100644
--- a/cmmcore/matrix.h
+++ b/cmmcore/matrix.h
@@ -31,7 +31,23 @@ private:
     std::array<std::array<double, 2>, 2> _m{};
 public:
     Matrix2x2() = default;
-    Matrix2x2( std::initializer_list<std::initializer_list<double>>arr){};
+    Matrix2x2( std::initializer_list<std::initializer_list<double>>arr)
+    {
+        size_t i = 0;
+        for (auto& row : arr)
+        {
+            size_t j = 0;
+            for (double value : row)
+            {
+                if (i < 2 && j < 2)
+                {
+                    _m[i][j] = value;
+                }
+                ++j;
+            }
+            ++i;
+        }
+    };
     Matrix2x2(std::array<double,2>& ab, std::array<double,2>& cd)
     {
         _m[0][0]=ab[0];
-- 
2.43.0


From 0463c6dc10d37e3c5db488283b5a13b4913f6039 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:46:15 +0000
Subject: [PATCH 10/39] fix: plane through three points keeps double precision

---
 cmmcore/plane.h | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/cmmcore/plane.h b/cmmcore/plane.h
index 10684a5..7b8da2a 100644
--- a/cmmcore/plane.h
+++ b/cmmcore/plane.h
@@ -11,9 +11,9 @@ namespace cmmcore
 {
     inline void plane_eq_from_pts(const vec3& pt0, const vec3& pt1, const vec3& pt2, vec4& equation)
     {
-        const float x3 = pt0.y * pt1.z;
-        const float x4 = pt1.y * pt2.z;
-        const float x5 = pt2.y * pt0.z;
+        const double x3 = pt0.y * pt1.z;
+        const double x4 = pt1.y * pt2.z;
+        const double x5 = pt2.y * pt0.z;
         equation.x = x3 + x4 + x5 - pt0.y * pt2.z - pt1.y * pt0.z - pt2.y * pt1.z;
         equation.y = -pt0.x * pt1.z + pt0.x * pt2.z + pt1.x * pt0.z - pt1.x * pt2.z - pt2.x * pt0.z + pt2.x * pt1.z;
         equation.z = pt0.x * pt1.y - pt0.x * pt2.y - pt1.x * pt0.y + pt1.x * pt2.y + pt2.x * pt0.y - pt2.x * pt1.y;
-- 
2.43.0


From 19846656f725108d3fb989512f22601f018e3b4b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:46:23 +0000
Subject: [PATCH 11/39] fix: plane built from origin and normal passes through
 the origin

---
 cmmcore/plane.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/cmmcore/plane.h b/cmmcore/plane.h
index 7b8da2a..c965b0c 100644
--- a/cmmcore/plane.h
+++ b/cmmcore/plane.h
@@ -50,7 +50,7 @@ namespace cmmcore
 
         plane(const vec3& _origin, const vec3& _normal) : denominator(_normal.length()),
                                                           equation(_normal.x, _normal.y, _normal.z,
-                                                                   -(_normal.x * _origin.x, _normal.y * _origin.y,
+                                                                   -(_normal.x * _origin.x + _normal.y * _origin.y +
                                                                        _normal.z * _origin.z)),
                                                           normal(_normal / denominator), origin(_origin)
         {
-- 
2.43.0


From e51755f0bb64793225f09b7adb30f63205193c11 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:46:32 +0000
Subject: [PATCH 12/39] fix: plane origin lies on the plane

---
 cmmcore/plane.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/cmmcore/plane.h b/cmmcore/plane.h
index c965b0c..b5f0440 100644
--- a/cmmcore/plane.h
+++ b/cmmcore/plane.h
@@ -40,7 +40,7 @@ namespace cmmcore
             computeDenominator();
 
             normal = vec3(equation.x / denominator, equation.y / denominator, equation.z / denominator);
-            origin.set(normal * equation.w);
+            origin.set(normal * (-equation.w / denominator));
         }
 
         plane(const vec3& _normal) : denominator(_normal.length()), equation(_normal.x, _normal.y, _normal.z, 0),
@@ -61,7 +61,7 @@ namespace cmmcore
             plane_eq_from_pts(std::get<0>(_pts), std::get<1>(_pts), std::get<2>(_pts), equation);
             computeDenominator();
             normal = vec3(equation.x / denominator, equation.y / denominator, equation.z / denominator);
-            origin.set(normal * equation.w);
+            origin.set(normal * (-equation.w / denominator));
         };
 
         void computeDenominator()
-- 
2.43.0


From 311eb2c231576178ddbe097017953d270a93ad61 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:46:41 +0000
Subject: [PATCH 13/39] fix: coplanarity test includes the fourth point

---
 cmmcore/plane.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/cmmcore/plane.h b/cmmcore/plane.h
index b5f0440..59bb6d5 100644
--- a/cmmcore/plane.h
+++ b/cmmcore/plane.h
@@ -295,7 +295,7 @@ namespace cmmcore
         plane p = {{pts[0], pts[1], pts[2]}};
 
 
-        for (size_t i = 4; i < pts.size(); i++)
+        for (size_t i = 3; i < pts.size(); i++)
         {
             if (std::abs(p.signedDistance(pts[i])) >= eps)
             {
-- 
2.43.0


From 3e4a7dc30d3e0456a25d4940c7706142a82d01c2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:46:50 +0000
Subject: [PATCH 14/39] fix: signed distance to a coordinate plane subtracts
 its offset once

---
 cmmcore/plane.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/cmmcore/plane.h b/cmmcore/plane.h
index 59bb6d5..e9b92f7 100644
--- a/cmmcore/plane.h
+++ b/cmmcore/plane.h
@@ -325,7 +325,7 @@ namespace cmmcore
             yaxis = normal.cross(xaxis);
             yaxis.unitize();
         };
-        double signedDistance(const vec3& pt) const { return plane::signedDistance(pt - origin); };
+        double signedDistance(const vec3& pt) const { return plane::signedDistance(pt); };
 
         void evaluate(double u, double v, vec3& result) const
         {
-- 
2.43.0


From b5312c411cfc5e923abb343fb697a64a4df8789d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:46:59 +0000
Subject: [PATCH 15/39] fix: closest point on a segment clamps the normalised
 parameter

---
 cmmcore/closest_point.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/cmmcore/closest_point.h b/cmmcore/closest_point.h
index 72bd767..af05478 100644
--- a/cmmcore/closest_point.h
+++ b/cmmcore/closest_point.h
@@ -46,7 +46,7 @@ namespace cmmcore{
     {
         vec3 d=end-start;
         vec3 o=a-start;
-        double t=d.dot(o);
+        double t=d.dot(o)/d.sqLength();
 
         if (t<0.)
         {
-- 
2.43.0


From 53f4605c319fe8896549629a7b617941dfa6f92b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:47:07 +0000
Subject: [PATCH 16/39] fix: closest point on a triangle is returned in the
 caller's frame

---
 cmmcore/closest_point.h | 1 +
 1 file changed, 1 insertion(+)

diff --git a/cmmcore/closest_point.h b/cmmcore/closest_point.h
index af05478..1743f0a 100644
--- a/cmmcore/closest_point.h
+++ b/cmmcore/closest_point.h
@@ -124,6 +124,7 @@ namespace cmmcore{
     inline void closestPointOnTriangle(const vec3& pt,const vec3& a, const vec3& b, const vec3& c,vec3& result)
     {
         result.set(closestPointOnTriangle(a-pt,b-pt,c-pt));
+        result+=pt;
 
     }
     inline vec3 closestPointOnTriangle(const vec3& pt,const vec3& a, const vec3& b, const vec3& c)
-- 
2.43.0


From bf2d401afe53ebe77ca00b0f6e85e9abc96bf932 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:47:18 +0000
Subject: [PATCH 17/39] fix: AABB::infinity recognises the empty box

---
 cmmcore/aabb.h | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/cmmcore/aabb.h b/cmmcore/aabb.h
index f9311cb..fe339cc 100644
--- a/cmmcore/aabb.h
+++ b/cmmcore/aabb.h
@@ -31,8 +31,9 @@ namespace cmmcore{
       }
     }
     bool infinity() const {
-      return (max.x == max.y == max.z == std::numeric_limits<double>::min() && min.x == min.y == min.z ==
-              std::numeric_limits<double>::max());
+      constexpr double lo = std::numeric_limits<double>::lowest();
+      constexpr double hi = std::numeric_limits<double>::max();
+      return max.x == lo && max.y == lo && max.z == lo && min.x == hi && min.y == hi && min.z == hi;
     }
 
     /**
-- 
2.43.0


From 15e0ef17966f5cc80f33d20d223e84636f8a4b2d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:48:12 +0000
Subject: [PATCH 18/39] fix: plane-plane intersection eliminates along the
 largest component of the direction

---
 cmmcore/plane.h | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/cmmcore/plane.h b/cmmcore/plane.h
index e9b92f7..0185672 100644
--- a/cmmcore/plane.h
+++ b/cmmcore/plane.h
@@ -172,14 +172,14 @@ namespace cmmcore
 
             // Choose the variable to eliminate
             int maxIndex = 0;
-            double maxAbs = std::abs(a1);
+            double maxAbs = std::abs(dir.x);
 
-            if (std::abs(b1) > maxAbs)
+            if (std::abs(dir.y) > maxAbs)
             {
                 maxIndex = 1;
-                maxAbs = std::abs(b1);
+                maxAbs = std::abs(dir.y);
             }
-            if (std::abs(c1) > maxAbs)
+            if (std::abs(dir.z) > maxAbs)
             {
                 maxIndex = 2;
             }
-- 
2.43.0


From 34a4ac493416772fb47845909bf3dba976fe081a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:08:22 +0000
Subject: [PATCH 19/39] fix: derivatives of basis functions support every
 degree up to CMMCORE_MAX_DEGREE

---
 cmmcore/nurbs_utils.h | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/cmmcore/nurbs_utils.h b/cmmcore/nurbs_utils.h
index c2b9de0..20a29cb 100644
--- a/cmmcore/nurbs_utils.h
+++ b/cmmcore/nurbs_utils.h
@@ -162,18 +162,18 @@ namespace cmmcore {
      * @param ders Output 2D vector where `ders[k][j]` contains the `k`-th derivative of the `j`-th nonzero basis function at `u`.
      */
     inline void ders_basis_funs(const int i, const double u, const int p, const int n, const std::vector<double> &U,
-                                std::vector<vec4> &ders) {
+                                std::vector<std::array<double,CMMCORE_DEG_STACK_SIZE> > &ders) {
         int pp = p + 1;
         int nn = n + 1;
 
         // Initialize ders with zeros
-        ders.assign(nn, vec4( 0.0,0.0,0.0,.0));
+        ders.assign(nn, std::array<double,CMMCORE_DEG_STACK_SIZE>{});
 
-        std::array<vec4,CMMCORE_DEG_STACK_SIZE> ndu{};
+        std::array<std::array<double,CMMCORE_DEG_STACK_SIZE>,CMMCORE_DEG_STACK_SIZE> ndu{};
         std::array<double,CMMCORE_DEG_STACK_SIZE> left{};
         std::array<double,CMMCORE_DEG_STACK_SIZE> right{};
         //std::vector<double> right(pp, 0.0);
-        std::array<vec4,2>  a;
+        std::array<std::array<double,CMMCORE_DEG_STACK_SIZE>,2> a{};
 
         ndu[0][0] = 1.0;
 
@@ -275,7 +275,7 @@ namespace cmmcore {
 
         int span = find_span(n, p, u, U, is_periodic);
 
-        std::vector<vec4> nders;
+        std::vector<std::array<double,CMMCORE_DEG_STACK_SIZE> > nders;
         ders_basis_funs(span, u, p, du, U, nders);
 
         int pp = p + 1;
-- 
2.43.0


From f50d8e1ffd7150264cb2f2dc87a428361dba65f5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:08:51 +0000
Subject: [PATCH 20/39] fix: curve derivatives apply the quotient rule and stop
 at the requested order

---
 cmmcore/nurbs.h | 38 ++++++++++++++++++++------------------
 1 file changed, 20 insertions(+), 18 deletions(-)

diff --git a/cmmcore/nurbs.h b/cmmcore/nurbs.h
index 341a108..d0db262 100644
--- a/cmmcore/nurbs.h
+++ b/cmmcore/nurbs.h
@@ -325,16 +325,9 @@ namespace cmmcore {
         }
 
         void derivative(const double t, vec3 &result) const {
-            int n = static_cast<int>(control_points.size()) - 1;
-            std::vector<vec4> CK(1);
-
-            curve_derivs_alg1(n, _degree, knots, control_points, t, 1, CK, _periodic);
-            auto der = CK[1];
-
-            //printf("(%f,%f,%f,%f)\n",der.x,der.y,der.z,der.w);
-            result.x = der.x;
-            result.y = der.y;
-            result.z = der.z;
+            std::vector<vec3> ders;
+            derivative(t, ders, 2);
+            result.set(ders[1]);
         }
 
 
@@ -381,14 +374,23 @@ namespace cmmcore {
             int n = static_cast<int>(control_points.size()) - 1;
             result.resize(d);
 
-            std::vector<vec4> CK(result.size());
-            curve_derivs_alg1(n, _degree, knots, control_points, t, d, CK, _periodic);
-            for (int i = 0; i < d; ++i) {
-                auto &der = CK[i];
-                auto &target = result[i];
-                target.x = der.x;
-                target.y = der.y;
-                target.z = der.z;
+            // derivatives of the homogeneous curve (those above the degree vanish)
+            std::vector<vec4> cpts_w = control_points;
+            for (auto &p: cpts_w) {
+                p.x *= p.w;
+                p.y *= p.w;
+                p.z *= p.w;
+            }
+            std::vector<vec4> CK;
+            curve_derivs_alg1(n, _degree, knots, cpts_w, t, d, CK, _periodic);
+            CK.resize(std::max(d, CK.size()), vec4(0., 0., 0., 0.));
+            // quotient rule
+            for (size_t k = 0; k < d; ++k) {
+                vec3 target(CK[k].x, CK[k].y, CK[k].z);
+                for (size_t i = 1; i <= k; ++i) {
+                    target -= result[k - i] * (binomial_coefficient(k, i) * CK[i].w);
+                }
+                result[k] = target / CK[0].w;
             }
         }
 
-- 
2.43.0


From d4995cf50ba4685ffbb0037cd6d60835a1ff331f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:27:44 +0000
Subject: [PATCH 21/39] fix: surface derivative sets the size and the domain of
 the result

---
 cmmcore/nurbs.h | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/cmmcore/nurbs.h b/cmmcore/nurbs.h
index d0db262..bcc4e1e 100644
--- a/cmmcore/nurbs.h
+++ b/cmmcore/nurbs.h
@@ -1162,6 +1162,8 @@ int toSTEP(std::ostream &out, int &entity_id) const {
             result._degree = new_degrees;
             result._knots_u = direction == 0 ? new_knots : _knots_u;
             result._knots_v = direction == 1 ? new_knots : _knots_v;
+            result._size = {new_control_points.size(), new_control_points[0].size()};
+            result.update_interval();
         }
 
         NURBSSurface get_derivative(int direction) const {
-- 
2.43.0


From 3a78fd35d3a089879086367d34988145c604c1d2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:27:56 +0000
Subject: [PATCH 22/39] fix: second_derivative_fdm is the second difference
 quotient

---
 cmmcore/nurbs.h | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/cmmcore/nurbs.h b/cmmcore/nurbs.h
index bcc4e1e..11821c6 100644
--- a/cmmcore/nurbs.h
+++ b/cmmcore/nurbs.h
@@ -427,8 +427,10 @@ namespace cmmcore {
             vec3 temp;
             evaluate(t - 1e-5, temp);
             evaluate(t + 1e-5, result);
-            result -= temp;
-            result /= 2e-5;
+            result += temp;
+            evaluate(t, temp);
+            result -= (2 * temp);
+            result /= 1e-10;
         }
 
 
-- 
2.43.0


From 719819e5ce0f805776340a79a5d24848dedbb966 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:22:21 +0000
Subject: [PATCH 23/39] fix: NURBSCurve::insert_knot inserts into the
 homogeneous curve, so weighted curves keep their shape

---
 cmmcore/nurbs.h | 13 ++++++++++++-
 1 file changed, 12 insertions(+), 1 deletion(-)

diff --git a/cmmcore/nurbs.h b/cmmcore/nurbs.h
index 11821c6..4c1028c 100644
--- a/cmmcore/nurbs.h
+++ b/cmmcore/nurbs.h
@@ -243,7 +243,13 @@ namespace cmmcore {
         void insert_knot(double t, int count) {
             int n = static_cast<int>(control_points.size());
             int new_count = n + count;
-            const std::vector<vec4> cpts = control_points;
+            // Knots are inserted into the homogeneous curve: (x, y, z, w) -> (x*w, y*w, z*w, w)
+            std::vector<vec4> cpts = control_points;
+            for (auto &pt: cpts) {
+                pt.x *= pt.w;
+                pt.y *= pt.w;
+                pt.z *= pt.w;
+            }
 
             // Find knot span
             int span = find_span(n - 1, _degree, t, knots, false);
@@ -259,6 +265,11 @@ namespace cmmcore {
                 control_points[i] = cpts.back() - i;
             }
             knot_insertion(_degree, knots, cpts, t, count, s_u, span, control_points);
+            for (auto &pt: control_points) {
+                pt.x /= pt.w;
+                pt.y /= pt.w;
+                pt.z /= pt.w;
+            }
             // Update curve
             knots = std::move(k_v);
             update_interval();
-- 
2.43.0


From b053431f31c6e3bf711752c4a4f4375ea58ab8ad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:01:24 +0000
Subject: [PATCH 24/39] fix: bounding box and 3d control points of a curve no
 longer divide Euclidean points by their weight

---
 cmmcore/nurbs.h | 14 ++++++++------
 1 file changed, 8 insertions(+), 6 deletions(-)

diff --git a/cmmcore/nurbs.h b/cmmcore/nurbs.h
index 4c1028c..4d31b91 100644
--- a/cmmcore/nurbs.h
+++ b/cmmcore/nurbs.h
@@ -479,7 +479,7 @@ namespace cmmcore {
         std::vector<vec3> &get_control_points3d(std::vector<vec3> &result) const {
             result.resize(control_points.size());
             for (size_t i = 0; i < control_points.size(); ++i) {
-                result[i].set(control_points[i].to_vec3());
+                result[i].set(control_points[i].x, control_points[i].y, control_points[i].z);
             }
             return result;
         }
@@ -488,7 +488,7 @@ namespace cmmcore {
             std::vector<vec3> result;
             result.resize(control_points.size());
             for (size_t i = 0; i < control_points.size(); ++i) {
-                result[i].set(control_points[i].to_vec3());
+                result[i].set(control_points[i].x, control_points[i].y, control_points[i].z);
             }
             return result;
         }
@@ -541,10 +541,12 @@ namespace cmmcore {
         AABB _aabb{};
         // Helper methods
         void rebuildAABB() {
-            _aabb.min.set(control_points[0].to_vec3());
-            _aabb.max.set(control_points[0].to_vec3());
-            for (auto p: control_points) {
-                _aabb.expand(p.to_vec3());
+            // Control points are (x, y, z, weight): (x, y, z) is already the Euclidean position
+            const vec4 &first = control_points[0];
+            _aabb.min.set(first.x, first.y, first.z);
+            _aabb.max.set(first.x, first.y, first.z);
+            for (const auto &p: control_points) {
+                _aabb.expand(vec3(p.x, p.y, p.z));
             }
         }
 
-- 
2.43.0


From 5b21a0e40608e35aa10133c16886d2c6f2ccb0be Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:01:34 +0000
Subject: [PATCH 25/39] fix: NURBSCurve::set_control_points refreshes the
 bounding box

---
 cmmcore/nurbs.h | 1 +
 1 file changed, 1 insertion(+)

diff --git a/cmmcore/nurbs.h b/cmmcore/nurbs.h
index 4d31b91..e9cce8b 100644
--- a/cmmcore/nurbs.h
+++ b/cmmcore/nurbs.h
@@ -503,6 +503,7 @@ namespace cmmcore {
                     generate_knots();
                 }
             }
+            rebuildAABB();
         }
 
         int get_degree() const {
-- 
2.43.0


From 8c42966eb063666f9fa80b41bb59d1f4fa3efdd8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:45:01 +0000
Subject: [PATCH 26/39] fix: polynomial results replace what the output held
 before

---
 cmmcore/monomial.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/cmmcore/monomial.h b/cmmcore/monomial.h
index 8f2fe7c..666806e 100644
--- a/cmmcore/monomial.h
+++ b/cmmcore/monomial.h
@@ -31,7 +31,7 @@ namespace cmmcore
     template <typename T>
     using Tensor2D = std::vector<std::vector<T>>;
 #define CMMCORE_CREATE_TENSOR2D(n,m,typ,...) std::vector(n, std::vector<typ>(m, {__VA_ARGS__}))
-#define CMMCORE_RESIZE_TENSOR2D(var,n,m,typ,...) var.resize(n, std::vector<typ>(m, {__VA_ARGS__}))
+#define CMMCORE_RESIZE_TENSOR2D(var,n,m,typ,...) var.assign(n, std::vector<typ>(m, {__VA_ARGS__}))
 
     template <typename T>
     inline void getVectorTensor2DComponent(Tensor2D<T>& arr, int component, MatrixD& result)
-- 
2.43.0


From a83fc66e4e940bc860b1386a211dc54004bb59a4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:45:12 +0000
Subject: [PATCH 27/39] fix: assigning a Monomial2D copies its conversion
 matrices

---
 cmmcore/monomial.h | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/cmmcore/monomial.h b/cmmcore/monomial.h
index 666806e..9639b7f 100644
--- a/cmmcore/monomial.h
+++ b/cmmcore/monomial.h
@@ -252,6 +252,8 @@ namespace cmmcore
             if (this == &other) return *this; // Handle self-assignment
             n = other.n, m = other.m;
             coefficients = other.coefficients;
+            Mu = other.Mu, Mv = other.Mv;
+            Mu_inv = other.Mu_inv, Mv_inv = other.Mv_inv;
             return *this;
         }
     };
-- 
2.43.0


From 785e1c65bf052c61cc33fac2eb803bd9cdc38b19 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:45:24 +0000
Subject: [PATCH 28/39] fix: moving a NURBSCurve keeps it periodic

---
 cmmcore/nurbs.h | 1 +
 1 file changed, 1 insertion(+)

diff --git a/cmmcore/nurbs.h b/cmmcore/nurbs.h
index e9cce8b..7034acf 100644
--- a/cmmcore/nurbs.h
+++ b/cmmcore/nurbs.h
@@ -141,6 +141,7 @@ namespace cmmcore {
                 _degree = other._degree;
                 knots = other.knots;
                 _aabb = other._aabb;
+                _periodic = other._periodic;
                 _interval = other._interval;
                 _hull = other._hull;
             }
-- 
2.43.0


From 2367ca7129d45d627035cc963b102779587e2267 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:31:28 +0000
Subject: [PATCH 29/39] fix: isocurves of weighted surfaces store Euclidean
 control points with their weight

---
 cmmcore/boundary_intersection.h | 6 ++++--
 cmmcore/nurbs.h                 | 6 ++++--
 2 files changed, 8 insertions(+), 4 deletions(-)

diff --git a/cmmcore/boundary_intersection.h b/cmmcore/boundary_intersection.h
index c2ae11a..1a42bb5 100644
--- a/cmmcore/boundary_intersection.h
+++ b/cmmcore/boundary_intersection.h
@@ -60,7 +60,8 @@ inline NURBSCurve extract_isocurve(const NURBSSurface& surface, const double par
             for (int j = 0; j <= degree_u; ++j) {
                 point +=  surface._control_points[span - degree_u + j][i] * basis[j];
             }
-            crv.control_points[i].set(point);
+            // surfaces store homogeneous points, curves Euclidean points with a weight
+            crv.control_points[i].set(point.x / point.w, point.y / point.w, point.z / point.w, point.w);
         }
         crv.update_interval();
 
@@ -93,7 +94,8 @@ inline NURBSCurve extract_isocurve(const NURBSSurface& surface, const double par
             for (int j = 0; j <= degree_v; ++j) {
                 point += surface._control_points[i][span - degree_v + j] * basis[j];
             }
-            crv.control_points[i] = point;
+            // surfaces store homogeneous points, curves Euclidean points with a weight
+            crv.control_points[i].set(point.x / point.w, point.y / point.w, point.z / point.w, point.w);
         }
 
         return crv;
diff --git a/cmmcore/nurbs.h b/cmmcore/nurbs.h
index 7034acf..4372126 100644
--- a/cmmcore/nurbs.h
+++ b/cmmcore/nurbs.h
@@ -1236,7 +1236,8 @@ int toSTEP(std::ostream &out, int &entity_id) const {
                     for (int j = 0; j <= degree_u; ++j) {
                         point += _control_points[span - degree_u + j][i] * basis[j];
                     }
-                    crv.control_points[i] = point;
+                    // surfaces store homogeneous points, curves Euclidean points with a weight
+                    crv.control_points[i].set(point.x / point.w, point.y / point.w, point.z / point.w, point.w);
                 }
                 crv.update_interval();
 
@@ -1270,7 +1271,8 @@ int toSTEP(std::ostream &out, int &entity_id) const {
                     for (int j = 0; j <= degree_v; ++j) {
                         point += _control_points[i][span - degree_v + j] * basis[j];
                     }
-                    crv.control_points[i] = point;
+                    // surfaces store homogeneous points, curves Euclidean points with a weight
+                    crv.control_points[i].set(point.x / point.w, point.y / point.w, point.z / point.w, point.w);
                 }
 
                 return crv;
-- 
2.43.0


From dd566f74660591590a8bd03001a761069d5d70bd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:31:51 +0000
Subject: [PATCH 30/39] fix: boundary_intersection extract_isocurve keeps the
 knots of the surface in the u direction

---
 cmmcore/boundary_intersection.h | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/cmmcore/boundary_intersection.h b/cmmcore/boundary_intersection.h
index 1a42bb5..e6798b1 100644
--- a/cmmcore/boundary_intersection.h
+++ b/cmmcore/boundary_intersection.h
@@ -87,6 +87,10 @@ inline NURBSCurve extract_isocurve(const NURBSSurface& surface, const double par
         // The curve will have as many control points as the surface has in u direction
         int m = surface._size[0];
         NURBSCurve crv(m, surface._degree[0]);
+        for (size_t i=0;i<surface._knots_u.size();i++) {
+            crv.knots[i]=surface._knots_u[i];
+        }
+        crv.update_interval();
 
         // Compute control points for the extracted curve
         for (int i = 0; i < m; ++i) {
@@ -361,4 +365,4 @@ inline void sort_boundary_intersections(
 
 } // namespace cmmcore
 
-#endif // CMMCORE_BOUNDARY_INTERSECTION_H
\ No newline at end of file
+#endif // CMMCORE_BOUNDARY_INTERSECTION_H
-- 
2.43.0


From e6e8e121b95133cad52390998056656f4f8d8cd7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:32:03 +0000
Subject: [PATCH 31/39] fix: isocurves carry the bounding box of their control
 points

---
 cmmcore/boundary_intersection.h | 4 +++-
 cmmcore/nurbs.h                 | 2 ++
 2 files changed, 5 insertions(+), 1 deletion(-)

diff --git a/cmmcore/boundary_intersection.h b/cmmcore/boundary_intersection.h
index e6798b1..fec1446 100644
--- a/cmmcore/boundary_intersection.h
+++ b/cmmcore/boundary_intersection.h
@@ -64,6 +64,7 @@ inline NURBSCurve extract_isocurve(const NURBSSurface& surface, const double par
             crv.control_points[i].set(point.x / point.w, point.y / point.w, point.z / point.w, point.w);
         }
         crv.update_interval();
+        crv.rebuildAABB();
 
         return crv;
     }
@@ -101,6 +102,7 @@ inline NURBSCurve extract_isocurve(const NURBSSurface& surface, const double par
             // surfaces store homogeneous points, curves Euclidean points with a weight
             crv.control_points[i].set(point.x / point.w, point.y / point.w, point.z / point.w, point.w);
         }
+        crv.rebuildAABB();
 
         return crv;
     }
@@ -365,4 +367,4 @@ inline void sort_boundary_intersections(
 
 } // namespace cmmcore
 
-#endif // CMMCORE_BOUNDARY_INTERSECTION_H
+#endif // CMMCORE_BOUNDARY_INTERSECTION_H
\ No newline at end of file
diff --git a/cmmcore/nurbs.h b/cmmcore/nurbs.h
index 4372126..5227b18 100644
--- a/cmmcore/nurbs.h
+++ b/cmmcore/nurbs.h
@@ -1240,6 +1240,7 @@ int toSTEP(std::ostream &out, int &entity_id) const {
                     crv.control_points[i].set(point.x / point.w, point.y / point.w, point.z / point.w, point.w);
                 }
                 crv.update_interval();
+                crv.rebuildAABB();
 
                 return crv;
             } else {
@@ -1274,6 +1275,7 @@ int toSTEP(std::ostream &out, int &entity_id) const {
                     // surfaces store homogeneous points, curves Euclidean points with a weight
                     crv.control_points[i].set(point.x / point.w, point.y / point.w, point.z / point.w, point.w);
                 }
+                crv.rebuildAABB();
 
                 return crv;
             }
-- 
2.43.0


From adbcc3f1781b414793a6b6f9ee5585cc104c8de8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:49:22 +0000
Subject: [PATCH 32/39] fix: copying a BVH node keeps its object

---
 cmmcore/bvh.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/cmmcore/bvh.hpp b/cmmcore/bvh.hpp
index 6380fe4..1890c95 100644
--- a/cmmcore/bvh.hpp
+++ b/cmmcore/bvh.hpp
@@ -124,7 +124,7 @@ public:
   BVHNode() : left(nullptr), right(nullptr), object(nullptr) {
 
   }
-  BVHNode(const BVHNode& other) : bounding_box(other.bounding_box), object(nullptr) {
+  BVHNode(const BVHNode& other) : bounding_box(other.bounding_box), object(other.object) {
     if (other.left) {
       left = std::make_unique<BVHNode>(*other.left);  // Recursively copy left subtree
     }
@@ -143,7 +143,7 @@ public:
 
     bounding_box = other.bounding_box;
 
-    object=other.object? object : nullptr;
+    object=other.object;
 
     if (other.left) {
       left = std::make_unique<BVHNode>(*other.left);  // Recursively copy left subtree
-- 
2.43.0


From a1c5f1f77d373e33f5cbdbd85e9a806abb9c8e56 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:49:27 +0000
Subject: [PATCH 33/39] fix: BVHNode::setRight sets the right subtree

---
 cmmcore/bvh.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/cmmcore/bvh.hpp b/cmmcore/bvh.hpp
index 1890c95..069269d 100644
--- a/cmmcore/bvh.hpp
+++ b/cmmcore/bvh.hpp
@@ -136,7 +136,7 @@ public:
   explicit BVHNode(const AABB &bb, Object3D *obj = nullptr)
       : bounding_box(bb), object(obj) {}
   void setLeft(std::unique_ptr<BVHNode> &node) { left.swap(node); }
-  void setRight(std::unique_ptr<BVHNode> &node) { left.swap(node); }
+  void setRight(std::unique_ptr<BVHNode> &node) { right.swap(node); }
   // Custom copy assignment operator for deep copy
   BVHNode& operator=(const BVHNode& other) {
     if (this == &other) return *this; // Handle self-assignment
-- 
2.43.0


From 2d4c6ca0f45d3a38d99f7bd7bd7b999f9e50e689 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:19:46 +0000
Subject: [PATCH 34/39] fix: MemoryView::size multiplies the dimensions

---
 cmmcore/memoryview.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/cmmcore/memoryview.h b/cmmcore/memoryview.h
index 54dd5ed..476da85 100644
--- a/cmmcore/memoryview.h
+++ b/cmmcore/memoryview.h
@@ -96,7 +96,7 @@ namespace cmmcore
             size_t size=1;
             for (size_t i = 0 ; i<shape_.size();i++)
             {
-                i*=shape_[i];
+                size*=shape_[i];
             }
             return size;
         }
-- 
2.43.0


From c3a070e28fe794461e40b3d0a6ef61aa29c5170f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:19:49 +0000
Subject: [PATCH 35/39] fix: MemoryView slices with a negative step select the
 elements in reverse

---
 cmmcore/memoryview.h | 16 +++++++++-------
 1 file changed, 9 insertions(+), 7 deletions(-)

diff --git a/cmmcore/memoryview.h b/cmmcore/memoryview.h
index 476da85..93c1c56 100644
--- a/cmmcore/memoryview.h
+++ b/cmmcore/memoryview.h
@@ -146,18 +146,20 @@ namespace cmmcore
                 }
                 else
                 {
-                    // Handle range slice
-                    int start = s.has_start ? s.start : 0;
-                    int stop = s.has_stop ? s.stop : static_cast<int>(shape_[i]);
+                    // Handle range slice (a negative step runs from the last element down to the first)
                     int step = s.step;
+                    const int lowest = step < 0 ? -1 : 0;
+                    const int highest = static_cast<int>(shape_[i]) + lowest;
+                    int start = s.has_start ? s.start : (step < 0 ? highest : lowest);
+                    int stop = s.has_stop ? s.stop : (step < 0 ? lowest : highest);
 
                     // Handle negative indices
-                    if (start < 0) start += static_cast<int>(shape_[i]);
-                    if (stop < 0) stop += static_cast<int>(shape_[i]);
+                    if (s.has_start && start < 0) start += static_cast<int>(shape_[i]);
+                    if (s.has_stop && stop < 0) stop += static_cast<int>(shape_[i]);
 
                     // Clamp start and stop
-                    start = std::max(0, std::min(start, static_cast<int>(shape_[i])));
-                    stop = std::max(0, std::min(stop, static_cast<int>(shape_[i])));
+                    start = std::max(lowest, std::min(start, highest));
+                    stop = std::max(lowest, std::min(stop, highest));
 
                     if (step == 0)
                     {
-- 
2.43.0


From e31e5f493d698ce0c5cdc3176aa291c903bd6926 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:19:53 +0000
Subject: [PATCH 36/39] fix: MemoryView::reshape refuses views whose elements
 are not contiguous

---
 cmmcore/memoryview.h | 19 +++++++++++++++++++
 1 file changed, 19 insertions(+)

diff --git a/cmmcore/memoryview.h b/cmmcore/memoryview.h
index 93c1c56..14fd9fa 100644
--- a/cmmcore/memoryview.h
+++ b/cmmcore/memoryview.h
@@ -208,6 +208,10 @@ namespace cmmcore
             {
                 throw std::invalid_argument("Total size must remain unchanged in reshape");
             }
+            if (!contiguous())
+            {
+                throw std::invalid_argument("Only contiguous views can be reshaped");
+            }
             shape_ = new_shape;
             compute_strides();
         }
@@ -496,6 +500,21 @@ namespace cmmcore
 
 
 
+        // Whether the elements follow each other in memory in row-major order
+        bool contiguous() const
+        {
+            size_t expected = 1;
+            for (size_t i = shape_.size(); i-- > 0;)
+            {
+                if (shape_[i] != 1 && strides_[i] != expected)
+                {
+                    return false;
+                }
+                expected *= shape_[i];
+            }
+            return true;
+        }
+
         // Compute strides based on the current shape
         void compute_strides()
         {
-- 
2.43.0


From 590e0c08d1a7ac6db5984820a71900846ac2104d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:19:56 +0000
Subject: [PATCH 37/39] fix: MemoryView copy, serialize and to_string gather
 the elements of strided views

---
 cmmcore/memoryview.h | 37 +++++++++++++++++++++++++++----------
 1 file changed, 27 insertions(+), 10 deletions(-)

diff --git a/cmmcore/memoryview.h b/cmmcore/memoryview.h
index 14fd9fa..69748da 100644
--- a/cmmcore/memoryview.h
+++ b/cmmcore/memoryview.h
@@ -104,8 +104,11 @@ namespace cmmcore
         {
             size_t _size=size();
             T* ptr = (T*)malloc(_size*sizeof(T));
-            memcpy(ptr,data_,_size*sizeof(T));
-            auto* mv=new MemoryView<T>(ptr,shape_, strides_, offset_);
+            for (size_t i = 0; i < _size; ++i)
+            {
+                new (ptr + i) T(flat(i));
+            }
+            auto* mv=new MemoryView<T>(ptr,shape_);
             mv->is_managed_=true;
             return mv;
 
@@ -286,7 +289,7 @@ namespace cmmcore
             size_t display_count = std::min(preview_limit, total_elements);
             for (size_t i = 0; i < display_count; ++i)
             {
-                oss << data_[offset_ + i * strides_[0]];
+                oss << flat(i);
                 if (i != display_count - 1) oss << ", ";
             }
             if (display_count < total_elements)
@@ -332,10 +335,11 @@ namespace cmmcore
                           reinterpret_cast<const char*>(shape_.data()),
                           reinterpret_cast<const char*>(shape_.data()) + sizeof(size_t) * ndim);
 
-            // Serialize Strides
+            // Serialize Strides (the elements are written in order, without gaps)
+            const std::vector<size_t> strides = MemoryView<T>(data_, shape_).strides_;
             buffer.insert(buffer.end(),
-                          reinterpret_cast<const char*>(strides_.data()),
-                          reinterpret_cast<const char*>(strides_.data()) + sizeof(size_t) * strides_.size());
+                          reinterpret_cast<const char*>(strides.data()),
+                          reinterpret_cast<const char*>(strides.data()) + sizeof(size_t) * strides.size());
 
             // Serialize Offset
             buffer.insert(buffer.end(),
@@ -343,10 +347,12 @@ namespace cmmcore
                           reinterpret_cast<const char*>(&offset_) + sizeof(size_t));
 
             // Serialize Data
-            size_t data_size = compute_total_size(shape_) * sizeof(T);
-            buffer.insert(buffer.end(),
-                          reinterpret_cast<const char*>(data_ + offset_),
-                          reinterpret_cast<const char*>(data_ + offset_) + data_size);
+            const size_t total_elements = compute_total_size(shape_);
+            for (size_t i = 0; i < total_elements; ++i)
+            {
+                const char* element = reinterpret_cast<const char*>(&flat(i));
+                buffer.insert(buffer.end(), element, element + sizeof(T));
+            }
 
             return buffer;
         }
@@ -500,6 +506,17 @@ namespace cmmcore
 
 
 
+        // The k-th element in row-major order
+        T& flat(size_t k) const
+        {
+            size_t idx = offset_;
+            for (size_t i = shape_.size(); i-- > 0; k /= shape_[i])
+            {
+                idx += (k % shape_[i]) * strides_[i];
+            }
+            return data_[idx];
+        }
+
         // Whether the elements follow each other in memory in row-major order
         bool contiguous() const
         {
-- 
2.43.0


From 62fd7eff4b46cc54f6bf673e54948727401ad3a8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:20:07 +0000
Subject: [PATCH 38/39] fix: csx tests the second half of the curve against
 every surface piece

---
 cmmcore/csx.h | 14 +++-----------
 1 file changed, 3 insertions(+), 11 deletions(-)

diff --git a/cmmcore/csx.h b/cmmcore/csx.h
index d15354b..0384bab 100644
--- a/cmmcore/csx.h
+++ b/cmmcore/csx.h
@@ -128,22 +128,14 @@ namespace cmmcore {
                         std::vector<vec3> curve_points = curve1.get_control_points3d();
                         std::vector<vec3> surface_points = s.control_points_flat3d();
 
-                        if ( SphericalCentralProjectionTest2(point,curve_points, surface_points)) {
-                            continue;
-
-                        }else{
+                        if (!SphericalCentralProjectionTest2(point,curve_points, surface_points)) {
                             _curve_surface_intersect(curve1, s);
+                        }
 
-                    }
                     std::vector<vec3> curve_points2 = curve2.get_control_points3d();
 
-
-                    if ( SphericalCentralProjectionTest2(point,curve_points2, surface_points)) {
-                        continue;
-
-                    }else{
+                    if (!SphericalCentralProjectionTest2(point,curve_points2, surface_points)) {
                         _curve_surface_intersect(curve2, s);
-
                     }
 
 
-- 
2.43.0


From 141c3e9a5ea73f9d9507fde7d71115082774f675 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:20:20 +0000
Subject: [PATCH 39/39] fix: csx reports a hit at an end of the curve instead
 of throwing

---
 cmmcore/csx.h | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/cmmcore/csx.h b/cmmcore/csx.h
index 0384bab..da5f611 100644
--- a/cmmcore/csx.h
+++ b/cmmcore/csx.h
@@ -111,7 +111,8 @@ namespace cmmcore {
                     intersections.emplace_back(CSXType::TRANSVERSAL, point, params);
                 }
                 if (std::abs(u - u0) < ptol || std::abs(u - u1) < ptol ||
-                                std::abs(v - v0) < ptol || std::abs(v - v1) < ptol) {
+                                std::abs(v - v0) < ptol || std::abs(v - v1) < ptol ||
+                                std::abs(t - curve._interval[0]) < ptol || std::abs(t - curve._interval[1]) < ptol) {
                     return;
                                 }
                 // Add spherical separability check
-- 
2.43.0

