From 98e3a4a2b1d08f61a6369f0a2a36edebe48683ae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:40:48 +0000
Subject: [PATCH 01/51] fix: Duration32 arithmetic on a zero duration must not
 produce NaN

Zero() * infinity and Zero() / 0 returned a NaN duration, although the class
promises that ToSeconds() and ToMillis() never return NaN. Give an infinite
duration with the sign absl::Duration gives.
---
 ink/types/duration.cc | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/ink/types/duration.cc b/ink/types/duration.cc
index 56154b6..0e6f5e3 100644
--- a/ink/types/duration.cc
+++ b/ink/types/duration.cc
@@ -28,7 +28,7 @@ Duration32 operator*(Duration32 d, float scale) {
     return d >= Duration32::Zero() ? Duration32::Infinite()
                                    : -Duration32::Infinite();
   }
-  if (!d.IsFinite()) {
+  if (!d.IsFinite() || std::isinf(scale)) {
     return (d >= Duration32::Zero()) == (scale >= 0) ? Duration32::Infinite()
                                                      : -Duration32::Infinite();
   }
@@ -45,6 +45,10 @@ Duration32 operator/(Duration32 d, float divisor) {
                ? Duration32::Infinite()
                : -Duration32::Infinite();
   }
+  if (d == Duration32::Zero() && divisor == 0) {
+    return std::signbit(divisor) ? -Duration32::Infinite()
+                                 : Duration32::Infinite();
+  }
   return Duration32(d.value_seconds_ / divisor);
 }
 
-- 
2.43.0


From eddee07fe09b7192c603e331f9225cd557298183 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:47:17 +0000
Subject: [PATCH 02/51] fix: Color::ScaledToGamut must not turn infinite
 channels into NaN

An infinite channel was divided by itself, so the returned color had a NaN
channel, against the class invariant, and converting it to 8 bits cast NaN to
an integer.
---
 ink/color/color.cc | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/ink/color/color.cc b/ink/color/color.cc
index aec3f4a..c91625c 100644
--- a/ink/color/color.cc
+++ b/ink/color/color.cc
@@ -166,7 +166,13 @@ Color Color::ScaledToGamut() const {
   const float max_val =
       std::max(copy.rgba_[kChannelRed],
                std::max(copy.rgba_[kChannelGreen], copy.rgba_[kChannelBlue]));
-  if (max_val > 1.0f) {
+  if (std::isinf(max_val)) {
+    // Dividing by infinity would turn the infinite channels into NaN. Relative to
+    // an infinite channel, all of the finite ones are zero.
+    for (int i = 0; i < kNumChannelsColorOnly; ++i) {
+      copy.rgba_[i] = std::isinf(copy.rgba_[i]) ? 1.0f : 0.0f;
+    }
+  } else if (max_val > 1.0f) {
     for (int i = 0; i < kNumChannelsColorOnly; ++i) {
       copy.rgba_[i] = copy.rgba_[i] / max_val;
     }
-- 
2.43.0


From 03c01df674d9591d3d6a051f703a2ae7e614a5c2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:59:17 +0000
Subject: [PATCH 03/51] fix: define the documented Quad default constructor

---
 ink/geometry/quad.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ink/geometry/quad.h b/ink/geometry/quad.h
index f97cc7d..26c9b40 100644
--- a/ink/geometry/quad.h
+++ b/ink/geometry/quad.h
@@ -83,7 +83,7 @@ class Quad {
  public:
   // Constructs a Quad centered on the origin, with zero width, height,
   // rotation, and shear factor.
-  Quad();
+  Quad() = default;
 
   // Constructs a Quad with the specified parameters, setting unspecified
   // parameters to zero. If the given width is less than zero, the Quad will be
-- 
2.43.0


From 92b760cd18a8e5c5ec91dddb527309ff66195fb2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:00:33 +0000
Subject: [PATCH 04/51] fix: Quad::Join must not truncate the distance to the
 point to an integer

---
 ink/geometry/quad.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ink/geometry/quad.cc b/ink/geometry/quad.cc
index 8bb5afc..b83eb69 100644
--- a/ink/geometry/quad.cc
+++ b/ink/geometry/quad.cc
@@ -84,7 +84,7 @@ void Quad::Join(Point point) {
   float u_cross_q = Vec::Determinant(unit_axes.first, q);
   float v_cross_q = Vec::Determinant(unit_axes.second, q);
   float new_width =
-      std::max(width_, .5f * width_ + abs(u_dot_q - shear_factor_ * u_cross_q));
+      std::max(width_, .5f * width_ + std::abs(u_dot_q - shear_factor_ * u_cross_q));
   float new_height = std::copysign(1.f, height_) *
                      std::max(std::abs(height_),
                               .5f * std::abs(height_) + std::abs(u_cross_q));
-- 
2.43.0


From c5533a981fe5b96d25d9fa2df5266a4645ede38a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:00:52 +0000
Subject: [PATCH 05/51] fix: intersection tests must not depend on products
 that underflow for tiny shapes

---
 ink/geometry/internal/intersects_internal.cc | 11 ++++++++++-
 ink/geometry/triangle.cc                     | 14 ++++++++++++--
 2 files changed, 22 insertions(+), 3 deletions(-)

diff --git a/ink/geometry/internal/intersects_internal.cc b/ink/geometry/internal/intersects_internal.cc
index c463706..455950a 100644
--- a/ink/geometry/internal/intersects_internal.cc
+++ b/ink/geometry/internal/intersects_internal.cc
@@ -26,6 +26,15 @@
 
 namespace ink {
 namespace geometry_internal {
+namespace {
+
+// Returns true if the values don't have the same (nonzero) sign. The sign of
+// `a * b` isn't used, because the product may underflow to zero.
+bool AreNotOnSameSide(float a, float b) {
+  return !((a < 0 && b < 0) || (a > 0 && b > 0));
+}
+
+}  // namespace
 
 bool IntersectsInternal(Point a, Point b) { return a == b; }
 bool IntersectsInternal(Point a, const Segment& b) {
@@ -88,7 +97,7 @@ bool IntersectsInternal(const Segment& a, const Segment& b) {
   float v2 = Vec::Determinant(vec_a, b.end - a.start);
   float v3 = Vec::Determinant(vec_b, a.start - b.start);
   float v4 = Vec::Determinant(vec_b, a.end - b.start);
-  return v1 * v2 <= 0 && v3 * v4 <= 0;
+  return AreNotOnSameSide(v1, v2) && AreNotOnSameSide(v3, v4);
 }
 bool IntersectsInternal(const Segment& a, const Triangle& b) {
   // NOMUTANTS -- Reroute to a simpler function when the Segment is Point-like.
diff --git a/ink/geometry/triangle.cc b/ink/geometry/triangle.cc
index 34e6f03..a5ce29e 100644
--- a/ink/geometry/triangle.cc
+++ b/ink/geometry/triangle.cc
@@ -26,10 +26,20 @@
 
 namespace ink {
 
+namespace {
+
+// Returns true if one of the values is positive and the other is negative. The
+// sign of `a * b` isn't used, because the product may underflow to zero.
+bool HaveOppositeSigns(float a, float b) {
+  return (a < 0 && b > 0) || (a > 0 && b < 0);
+}
+
+}  // namespace
+
 bool Triangle::Contains(Point point) const {
   float d0 = Vec::Determinant(point - p0, p1 - p0);
   float d1 = Vec::Determinant(point - p1, p2 - p1);
-  if (d0 * d1 < 0) return false;
+  if (HaveOppositeSigns(d0, d1)) return false;
 
   if (d0 == 0 && d1 == 0) {
     // The test point is on the same line as two segments of the triangle, which
@@ -79,7 +89,7 @@ bool Triangle::Contains(Point point) const {
   }
 
   float d2 = Vec::Determinant(point - p2, p0 - p2);
-  return (d1 * d2 >= 0) && (d0 * d2 >= 0);
+  return !HaveOppositeSigns(d1, d2) && !HaveOppositeSigns(d0, d2);
 }
 
 Segment Triangle::GetEdge(int index) const {
-- 
2.43.0


From 9b26475006ebbfe1f13a13e29f771908af68c4cc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:00:52 +0000
Subject: [PATCH 06/51] fix: Vec::AsUnitVec must not fail for subnormal vectors

---
 ink/geometry/vec.cc | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/ink/geometry/vec.cc b/ink/geometry/vec.cc
index 97479d0..066f41f 100644
--- a/ink/geometry/vec.cc
+++ b/ink/geometry/vec.cc
@@ -55,9 +55,11 @@ Vec Vec::AsUnitVec() const {
 
   // Finally, we have the finite, nonzero case.  In theory, we can just divide
   // the vector by its magnitude, but the magnitude can overflow to infinity if
-  // e.g. x and y are both very large finite floats.  We can avoid this by
-  // pre-scaling the vector before normalizing.
-  Vec scaled = 0.5f * *this;
+  // e.g. x and y are both very large finite floats, and both it and the halved
+  // components can underflow to zero if x and y are both very small.  We can
+  // avoid this by pre-scaling the vector before normalizing.
+  bool is_small = std::abs(x) < 1 && std::abs(y) < 1;
+  Vec scaled = (is_small ? 0x1p64f : 0.5f) * *this;
   return scaled / scaled.Magnitude();
 }
 
-- 
2.43.0


From 3f53af39abb198b0c8d79cf78a5a92247a9f8428 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:01:00 +0000
Subject: [PATCH 07/51] fix: Rect::{Containing,Interior}RectWithAspectRatio
 must accept rects of zero height

---
 ink/geometry/rect.cc | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/ink/geometry/rect.cc b/ink/geometry/rect.cc
index d439064..114d715 100644
--- a/ink/geometry/rect.cc
+++ b/ink/geometry/rect.cc
@@ -53,7 +53,7 @@ Rect Rect::ContainingRectWithAspectRatio(float aspect_ratio) const {
   ABSL_CHECK(aspect_ratio > 0) << "Aspect ratio cannot be <= 0";
   float corrected_width;
   float corrected_height;
-  if (aspect_ratio > AspectRatio()) {
+  if (aspect_ratio * Height() > Width()) {
     corrected_height = Height();
     corrected_width = Height() * aspect_ratio;
   } else {
@@ -68,7 +68,7 @@ Rect Rect::InteriorRectWithAspectRatio(float aspect_ratio) const {
   ABSL_CHECK(aspect_ratio >= 0) << "Aspect ratio cannot be < 0";
   float corrected_width;
   float corrected_height;
-  if (aspect_ratio > AspectRatio()) {
+  if (aspect_ratio * Height() > Width()) {
     corrected_width = Width();
     corrected_height = Width() / aspect_ratio;
   } else {
-- 
2.43.0


From be9612f86d85a6267b3aa6d2d085237cc02fda10 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:01:28 +0000
Subject: [PATCH 08/51] fix: AffineTransform::Find must not lose precision away
 from the origin

---
 ink/geometry/affine_transform.cc | 47 ++++++++++++++------------------
 1 file changed, 20 insertions(+), 27 deletions(-)

diff --git a/ink/geometry/affine_transform.cc b/ink/geometry/affine_transform.cc
index 2b3e39f..885e6ed 100644
--- a/ink/geometry/affine_transform.cc
+++ b/ink/geometry/affine_transform.cc
@@ -131,34 +131,27 @@ std::optional<AffineTransform> AffineTransform::Find(const Triangle& from,
       std::tuple<Point, Point, Point>(from.p0, from.p1, from.p2);
   auto [b0, b1, b2] = std::tuple<Point, Point, Point>(to.p0, to.p1, to.p2);
 
+  // The linear part of the transform maps the edges of `from` that start at
+  // `a0` to those of `to` that start at `b0`. Using the edges, instead of the
+  // coordinates, avoids cancellation when the triangles are far from the origin.
+  Vec from_u = a1 - a0;
+  Vec from_v = a2 - a0;
+  Vec to_u = b1 - b0;
+  Vec to_v = b2 - b0;
+
   // This is the denominator (either positive or negative) of each term in the
-  // AffineTransform. The denominator is 0 if and only if the starting triangle
-  // has an area of 0.
-  float d = (a1.x * a0.y) - (a2.x * a0.y) - (a0.x * a1.y) + (a2.x * a1.y) +
-            (a0.x * a2.y) - (a1.x * a2.y);
-
-  // We check that d is nonzero to ensure we will not divide by 0. We
-  // additionally check that from.SignedArea is nonzero because, with large
-  // enough points, its possible to get a very small but technically nonzero
-  // value for d due to floating point math.
-  if (d == 0 || from.SignedArea() == 0) return std::nullopt;
-
-  float n0 = (b1.x * a0.y) - (b2.x * a0.y) - (b0.x * a1.y) + (b2.x * a1.y) +
-             (b0.x * a2.y) - (b1.x * a2.y);
-  float n1 = (b1.x * a0.x) - (b2.x * a0.x) - (b0.x * a1.x) + (b2.x * a1.x) +
-             (b0.x * a2.x) - (b1.x * a2.x);
-  float n2 = (b2.x * a1.x * a0.y) - (b1.x * a2.x * a0.y) -
-             (b2.x * a0.x * a1.y) + (b0.x * a2.x * a1.y) +
-             (b1.x * a0.x * a2.y) - (b0.x * a1.x * a2.y);
-  float n3 = (b1.y * a0.y) - (b2.y * a0.y) - (b0.y * a1.y) + (b2.y * a1.y) +
-             (b0.y * a2.y) - (b1.y * a2.y);
-  float n4 = (b1.y * a0.x) - (b2.y * a0.x) - (b0.y * a1.x) + (b2.y * a1.x) +
-             (b0.y * a2.x) - (b1.y * a2.x);
-  float n5 = (b2.y * a1.x * a0.y) - (b1.y * a2.x * a0.y) -
-             (b2.y * a0.x * a1.y) + (b0.y * a2.x * a1.y) +
-             (b1.y * a0.x * a2.y) - (b0.y * a1.x * a2.y);
-
-  return AffineTransform(n0 / d, n1 / -d, n2 / d, n3 / d, n4 / -d, n5 / d);
+  // linear part. It is 0 if and only if the starting triangle has an area of 0.
+  // We also check the signed area because, for a degenerate triangle, floating
+  // point error may make only one of the two nonzero.
+  float det = Vec::Determinant(from_u, from_v);
+  if (det == 0 || from.SignedArea() == 0) return std::nullopt;
+
+  float a = (to_u.x * from_v.y - to_v.x * from_u.y) / det;
+  float b = (to_v.x * from_u.x - to_u.x * from_v.x) / det;
+  float d = (to_u.y * from_v.y - to_v.y * from_u.y) / det;
+  float e = (to_v.y * from_u.x - to_u.y * from_v.x) / det;
+  return AffineTransform(a, b, b0.x - (a * a0.x + b * a0.y), d, e,
+                         b0.y - (d * a0.x + e * a0.y));
 }
 
 std::optional<AffineTransform> AffineTransform::Find(const Rect& from,
-- 
2.43.0


From c373d67571826b1b8978902143284d3aaedbb8ea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:03:33 +0000
Subject: [PATCH 09/51] fix: AffineTransform::Apply must keep the extent of a
 quad that it collapses

---
 ink/geometry/affine_transform.cc | 17 ++++++++++++++---
 1 file changed, 14 insertions(+), 3 deletions(-)

diff --git a/ink/geometry/affine_transform.cc b/ink/geometry/affine_transform.cc
index 885e6ed..c31dcc5 100644
--- a/ink/geometry/affine_transform.cc
+++ b/ink/geometry/affine_transform.cc
@@ -85,12 +85,23 @@ Quad AffineTransform::Apply(const Quad& q) const {
   float u_dot_v = Vec::DotProduct(u, v);
   float u_cross_v = Vec::Determinant(u, v);
 
+  if (u_cross_v == 0) {
+    // The image has no area; it is the segment that is covered by the images of
+    // those axes of the quad that have a nonzero length.
+    Vec axis = q.Width() == 0 ? Vec{0, 0} : u;
+    if (q.Height() != 0) {
+      axis = Vec::DotProduct(axis, v) < 0 ? axis - v : axis + v;
+    }
+    Angle direction = axis == Vec{0, 0} ? u.Direction() : axis.Direction();
+    return Quad::FromCenterDimensionsAndRotation(
+        new_center, 2 * axis.Magnitude(), 0, direction);
+  }
+
   float new_width = q.Width() == 0 ? 0 : 2 * u_magnitude;
-  float new_height =
-      q.Height() == 0 || u_cross_v == 0 ? 0 : 2 * u_cross_v / u_magnitude;
+  float new_height = q.Height() == 0 ? 0 : 2 * u_cross_v / u_magnitude;
 
   Angle new_rotation = u.Direction();
-  float new_shear = u_cross_v == 0 ? 0 : u_dot_v / u_cross_v;
+  float new_shear = u_dot_v / u_cross_v;
 
   return Quad::FromCenterDimensionsRotationAndShear(
       new_center, new_width, new_height, new_rotation, new_shear);
-- 
2.43.0


From 3d16168d78b1ea0ec09029ba4009f469c87abdb8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:03:48 +0000
Subject: [PATCH 10/51] fix: a degenerate Triangle must not contain points
 outside of its bounding box

---
 ink/geometry/triangle.cc | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/ink/geometry/triangle.cc b/ink/geometry/triangle.cc
index a5ce29e..ce3a16d 100644
--- a/ink/geometry/triangle.cc
+++ b/ink/geometry/triangle.cc
@@ -37,6 +37,16 @@ bool HaveOppositeSigns(float a, float b) {
 }  // namespace
 
 bool Triangle::Contains(Point point) const {
+  // A point outside of the bounding box can't be contained. This matters for
+  // degenerate triangles, for which the signs of the determinants below are
+  // subject to rounding for every point close to the triangle's line.
+  auto [x_min, x_max] = std::minmax({p0.x, p1.x, p2.x});
+  auto [y_min, y_max] = std::minmax({p0.y, p1.y, p2.y});
+  if (point.x < x_min || point.x > x_max || point.y < y_min ||
+      point.y > y_max) {
+    return false;
+  }
+
   float d0 = Vec::Determinant(point - p0, p1 - p0);
   float d1 = Vec::Determinant(point - p1, p2 - p1);
   if (HaveOppositeSigns(d0, d1)) return false;
-- 
2.43.0


From 21fd91f7c8322a420a0ebe6940b70444c22e7b16 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:16:57 +0000
Subject: [PATCH 11/51] fix: Segments whose bounding boxes are disjoint must
 not be reported to intersect

---
 ink/geometry/internal/intersects_internal.cc | 11 +++++++++++
 1 file changed, 11 insertions(+)

diff --git a/ink/geometry/internal/intersects_internal.cc b/ink/geometry/internal/intersects_internal.cc
index 455950a..36e676c 100644
--- a/ink/geometry/internal/intersects_internal.cc
+++ b/ink/geometry/internal/intersects_internal.cc
@@ -14,6 +14,7 @@
 
 #include "ink/geometry/internal/intersects_internal.h"
 
+#include <algorithm>
 #include <optional>
 #include <utility>
 
@@ -66,6 +67,16 @@ bool IntersectsInternal(const Segment& a, const Segment& b) {
   // NOMUTANTS -- Reroute to a simpler function when the Segment is Point-like.
   if (b.start == b.end) return IntersectsInternal(b.start, a);
 
+  // Segments whose bounding boxes are disjoint don't intersect. This matters for
+  // segments that are close to collinear, for which the signs of the cross
+  // products below are subject to rounding.
+  if (std::max(a.start.x, a.end.x) < std::min(b.start.x, b.end.x) ||
+      std::max(b.start.x, b.end.x) < std::min(a.start.x, a.end.x) ||
+      std::max(a.start.y, a.end.y) < std::min(b.start.y, b.end.y) ||
+      std::max(b.start.y, b.end.y) < std::min(a.start.y, a.end.y)) {
+    return false;
+  }
+
   Vec vec_a = a.Vector();
   Vec vec_b = b.Vector();
 
-- 
2.43.0


From 3e406c01a7b144933e3c56dd6a0c54c6b94439a6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:33:50 +0000
Subject: [PATCH 12/51] fix: Packing params for a subnormal range must
 represent the maximum

---
 ink/geometry/internal/mesh_packing.cc | 14 +++++++++++++-
 1 file changed, 13 insertions(+), 1 deletion(-)

diff --git a/ink/geometry/internal/mesh_packing.cc b/ink/geometry/internal/mesh_packing.cc
index 548cca6..77712e1 100644
--- a/ink/geometry/internal/mesh_packing.cc
+++ b/ink/geometry/internal/mesh_packing.cc
@@ -19,6 +19,7 @@
 #include <cstddef>
 #include <cstdint>
 #include <cstring>
+#include <limits>
 #include <optional>
 #include <utility>
 #include <vector>
@@ -876,7 +877,18 @@ absl::StatusOr<MeshAttributeCodingParams> ComputeCodingParams(
     // If the min and max are the same, we would get a scale of zero, which
     // wouldn't make sense, since multiplying by zero is not invertible --
     // so in that case we set the scale to 1 instead.
-    coding_params.components[i].scale = range > 0 ? range / max_values[i] : 1;
+    if (range <= 0) {
+      coding_params.components[i].scale = 1;
+      continue;
+    }
+    float scale = range / max_values[i];
+    // If the quotient is subnormal, it may have been rounded down by enough
+    // (possibly to zero) that the maximum value would not be representable, in
+    // which case we need to round up instead.
+    if (!(std::round(range / scale) <= max_values[i])) {
+      scale = std::nextafter(scale, std::numeric_limits<float>::infinity());
+    }
+    coding_params.components[i].scale = scale;
   }
 
   return coding_params;
-- 
2.43.0


From c3645b4cff1be07a63ea0cfae5be270da5c52447 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:34:50 +0000
Subject: [PATCH 13/51] fix: Spatial queries on a PartitionedMesh with groups
 but no meshes

---
 ink/geometry/partitioned_mesh.cc | 28 ++++++++++++++--------------
 ink/geometry/partitioned_mesh.h  |  2 +-
 2 files changed, 15 insertions(+), 15 deletions(-)

diff --git a/ink/geometry/partitioned_mesh.cc b/ink/geometry/partitioned_mesh.cc
index 4201951..55536a7 100644
--- a/ink/geometry/partitioned_mesh.cc
+++ b/ink/geometry/partitioned_mesh.cc
@@ -328,7 +328,7 @@ void VisitIntersectedTrianglesHelper(
 void PartitionedMesh::VisitIntersectedTriangles(
     Point query, absl::FunctionRef<FlowControl(TriangleIndexPair)> visitor,
     const AffineTransform& query_to_this) const {
-  if (!data_) return;
+  if (Meshes().empty()) return;
 
   VisitIntersectedTrianglesHelper(query, visitor, query_to_this,
                                   data_->Meshes(), data_->SpatialIndex());
@@ -338,7 +338,7 @@ void PartitionedMesh::VisitIntersectedTriangles(
     const Segment& query,
     absl::FunctionRef<FlowControl(TriangleIndexPair)> visitor,
     const AffineTransform& query_to_this) const {
-  if (!data_) return;
+  if (Meshes().empty()) return;
 
   VisitIntersectedTrianglesHelper(query, visitor, query_to_this,
                                   data_->Meshes(), data_->SpatialIndex());
@@ -348,7 +348,7 @@ void PartitionedMesh::VisitIntersectedTriangles(
     const Triangle& query,
     absl::FunctionRef<FlowControl(TriangleIndexPair)> visitor,
     const AffineTransform& query_to_this) const {
-  if (!data_) return;
+  if (Meshes().empty()) return;
 
   VisitIntersectedTrianglesHelper(query, visitor, query_to_this,
                                   data_->Meshes(), data_->SpatialIndex());
@@ -358,7 +358,7 @@ void PartitionedMesh::VisitIntersectedTriangles(
     const Rect& query,
     absl::FunctionRef<FlowControl(TriangleIndexPair)> visitor,
     const AffineTransform& query_to_this) const {
-  if (!data_) return;
+  if (Meshes().empty()) return;
 
   VisitIntersectedTrianglesHelper(query, visitor, query_to_this,
                                   data_->Meshes(), data_->SpatialIndex());
@@ -368,7 +368,7 @@ void PartitionedMesh::VisitIntersectedTriangles(
     const Quad& query,
     absl::FunctionRef<FlowControl(TriangleIndexPair)> visitor,
     const AffineTransform& query_to_this) const {
-  if (!data_) return;
+  if (Meshes().empty()) return;
 
   VisitIntersectedTrianglesHelper(query, visitor, query_to_this,
                                   data_->Meshes(), data_->SpatialIndex());
@@ -424,7 +424,7 @@ void PartitionedMesh::VisitIntersectedTriangles(
     const PartitionedMesh& query,
     absl::FunctionRef<FlowControl(TriangleIndexPair)> visitor,
     const AffineTransform& query_to_this) const {
-  if (!data_) return;
+  if (Meshes().empty()) return;
 
   // If `query` is empty, it can't intersect this shape.
   if (query.Meshes().empty()) return;
@@ -475,28 +475,28 @@ float ComputeCoverage(const QueryType& query,
 
 float PartitionedMesh::Coverage(const Triangle& query,
                                 const AffineTransform& query_to_this) const {
-  if (data_ == nullptr) return 0;
+  if (Meshes().empty()) return 0;
   return ComputeCoverage(query, query_to_this, *this,
                          data_->TotalAbsoluteArea());
 }
 
 float PartitionedMesh::Coverage(const Rect& query,
                                 const AffineTransform& query_to_this) const {
-  if (data_ == nullptr) return 0;
+  if (Meshes().empty()) return 0;
   return ComputeCoverage(query, query_to_this, *this,
                          data_->TotalAbsoluteArea());
 }
 
 float PartitionedMesh::Coverage(const Quad& query,
                                 const AffineTransform& query_to_this) const {
-  if (data_ == nullptr) return 0;
+  if (Meshes().empty()) return 0;
   return ComputeCoverage(query, query_to_this, *this,
                          data_->TotalAbsoluteArea());
 }
 
 float PartitionedMesh::Coverage(const PartitionedMesh& query,
                                 const AffineTransform& query_to_this) const {
-  if (data_ == nullptr) return 0;
+  if (Meshes().empty()) return 0;
   return ComputeCoverage(query, query_to_this, *this,
                          data_->TotalAbsoluteArea());
 }
@@ -533,7 +533,7 @@ float CoverageIsGreaterThanHelper(const QueryType& query,
 bool PartitionedMesh::CoverageIsGreaterThan(
     const Triangle& query, float coverage_threshold,
     const AffineTransform& query_to_this) const {
-  if (data_ == nullptr) return false;
+  if (Meshes().empty()) return false;
   return CoverageIsGreaterThanHelper(query, query_to_this, *this,
                                      coverage_threshold,
                                      data_->TotalAbsoluteArea());
@@ -542,7 +542,7 @@ bool PartitionedMesh::CoverageIsGreaterThan(
 bool PartitionedMesh::CoverageIsGreaterThan(
     const Rect& query, float coverage_threshold,
     const AffineTransform& query_to_this) const {
-  if (data_ == nullptr) return false;
+  if (Meshes().empty()) return false;
   return CoverageIsGreaterThanHelper(query, query_to_this, *this,
                                      coverage_threshold,
                                      data_->TotalAbsoluteArea());
@@ -551,7 +551,7 @@ bool PartitionedMesh::CoverageIsGreaterThan(
 bool PartitionedMesh::CoverageIsGreaterThan(
     const Quad& query, float coverage_threshold,
     const AffineTransform& query_to_this) const {
-  if (data_ == nullptr) return false;
+  if (Meshes().empty()) return false;
   return CoverageIsGreaterThanHelper(query, query_to_this, *this,
                                      coverage_threshold,
                                      data_->TotalAbsoluteArea());
@@ -560,7 +560,7 @@ bool PartitionedMesh::CoverageIsGreaterThan(
 bool PartitionedMesh::CoverageIsGreaterThan(
     const PartitionedMesh& query, float coverage_threshold,
     const AffineTransform& query_to_this) const {
-  if (data_ == nullptr) return false;
+  if (Meshes().empty()) return false;
   return CoverageIsGreaterThanHelper(query, query_to_this, *this,
                                      coverage_threshold,
                                      data_->TotalAbsoluteArea());
diff --git a/ink/geometry/partitioned_mesh.h b/ink/geometry/partitioned_mesh.h
index 34b5876..a8ee5a0 100644
--- a/ink/geometry/partitioned_mesh.h
+++ b/ink/geometry/partitioned_mesh.h
@@ -474,7 +474,7 @@ inline uint32_t PartitionedMesh::OutlineVertexCount(
 }
 
 inline void PartitionedMesh::InitializeSpatialIndex() {
-  if (!data_) return;
+  if (Meshes().empty()) return;
 
   (void)data_->SpatialIndex();
 }
-- 
2.43.0


From d9af3453ce9f2cbda26fca2021c4590d56120cb4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:35:32 +0000
Subject: [PATCH 14/51] fix: Visiting an empty StaticRTree must visit nothing

---
 ink/geometry/internal/static_rtree.h | 1 +
 1 file changed, 1 insertion(+)

diff --git a/ink/geometry/internal/static_rtree.h b/ink/geometry/internal/static_rtree.h
index da0a591..9213844 100644
--- a/ink/geometry/internal/static_rtree.h
+++ b/ink/geometry/internal/static_rtree.h
@@ -382,6 +382,7 @@ void StaticRTree<T, kBranchingFactor>::InitializeTree() {
 template <typename T, uint32_t kBranchingFactor>
 void StaticRTree<T, kBranchingFactor>::VisitIntersectedElements(
     const Rect& bounds, absl::FunctionRef<bool(const T&)> visitor) const {
+  if (branch_nodes_.empty()) return;
   if (!IntersectsInternal(branch_nodes_.front().bounds, bounds)) return;
   VisitIntersectedElementsInSubTree(0, bounds, visitor);
 }
-- 
2.43.0


From 18534e9b0eeef8584fefc857bbd03b1a9861d936 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:35:44 +0000
Subject: [PATCH 15/51] fix: Index triangles past the 65536th of a mesh

---
 ink/geometry/partitioned_mesh.cc | 4 ++--
 ink/geometry/partitioned_mesh.h  | 5 +++--
 2 files changed, 5 insertions(+), 4 deletions(-)

diff --git a/ink/geometry/partitioned_mesh.cc b/ink/geometry/partitioned_mesh.cc
index 55536a7..cee5eb5 100644
--- a/ink/geometry/partitioned_mesh.cc
+++ b/ink/geometry/partitioned_mesh.cc
@@ -584,8 +584,8 @@ const RTree& PartitionedMesh::Data::SpatialIndex() const {
   // in order of mesh index, then triangle index.
   //
   // We want to start at mesh_index = 0, triangle_index = 0, but since they're
-  // `uint16_t`s, we have to make a copy of the current index, then increment
-  // the current value, then return the copy (analogous to the post-increment
+  // unsigned, we have to make a copy of the current index, then increment the
+  // current value, then return the copy (analogous to the post-increment
   // operator).
   auto triangle_index_pair_generator =
       [this, current_index = TriangleIndexPair{.mesh_index = 0,
diff --git a/ink/geometry/partitioned_mesh.h b/ink/geometry/partitioned_mesh.h
index a8ee5a0..a54c5e7 100644
--- a/ink/geometry/partitioned_mesh.h
+++ b/ink/geometry/partitioned_mesh.h
@@ -77,8 +77,9 @@ class PartitionedMesh {
   struct TriangleIndexPair {
     // The index of the `Mesh` that the triangle belongs to.
     uint16_t mesh_index;
-    // The index of the triangle within the `Mesh`.
-    uint16_t triangle_index;
+    // The index of the triangle within the `Mesh`. Note that this needs to be
+    // wider than 16 bits, as a `Mesh` may have more triangles than vertices.
+    uint32_t triangle_index;
   };
 
   // One render group for a `PartitionedMesh`, expressed using `MutableMesh`.
-- 
2.43.0


From e12a73433dcbe56c01e87b216eca05fedb730f33 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:38:31 +0000
Subject: [PATCH 16/51] fix: A transform that collapses one diagonal need not
 collapse the whole shape

---
 ink/geometry/internal/algorithms.cc | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/ink/geometry/internal/algorithms.cc b/ink/geometry/internal/algorithms.cc
index f82f9bd..432081c 100644
--- a/ink/geometry/internal/algorithms.cc
+++ b/ink/geometry/internal/algorithms.cc
@@ -238,11 +238,18 @@ Segment CalculateCollapsedSegment(
     const AffineTransform& non_invertible_transform) {
   ABSL_DCHECK(!non_invertible_transform.Inverse().has_value());
 
-  // We first transform the diagonal of `query`'s bounds to find the line that
-  // `query` will lie on after transforming it.
+  // We first transform the diagonals of `query`'s bounds to find the line that
+  // `query` will lie on after transforming it. The transform may collapse one
+  // of the diagonals, so we use the longer one.
   std::array<Point, 4> corners = bounds.Corners();
   Segment transformed_diagonal =
       non_invertible_transform.Apply(Segment{corners[0], corners[2]});
+  Segment other_transformed_diagonal =
+      non_invertible_transform.Apply(Segment{corners[1], corners[3]});
+  if (other_transformed_diagonal.Vector().MagnitudeSquared() >
+      transformed_diagonal.Vector().MagnitudeSquared()) {
+    transformed_diagonal = other_transformed_diagonal;
+  }
 
   if (transformed_diagonal.Vector().MagnitudeSquared() == 0) {
     // The transform collapses the shape to a single point.
-- 
2.43.0


From 2895c5faf00aae0d8b985018f7214403aea57b31 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:41:40 +0000
Subject: [PATCH 17/51] fix: Unpacking the maximum of a packed attribute must
 not overflow

---
 ink/geometry/internal/mesh_packing.cc | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/ink/geometry/internal/mesh_packing.cc b/ink/geometry/internal/mesh_packing.cc
index 77712e1..4055170 100644
--- a/ink/geometry/internal/mesh_packing.cc
+++ b/ink/geometry/internal/mesh_packing.cc
@@ -888,6 +888,11 @@ absl::StatusOr<MeshAttributeCodingParams> ComputeCodingParams(
     if (!(std::round(range / scale) <= max_values[i])) {
       scale = std::nextafter(scale, std::numeric_limits<float>::infinity());
     }
+    // Similarly, if the range is close to the largest float, `scale` may have
+    // been rounded up such that unpacking the maximum value would overflow.
+    if (!std::isfinite(scale * max_values[i])) {
+      scale = std::nextafter(scale, 0.f);
+    }
     coding_params.components[i].scale = scale;
   }
 
-- 
2.43.0


From 547ff0c3c0675fa85e127ca4933dee0d84c4c564 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:07:19 +0000
Subject: [PATCH 18/51] fix: append a StrokeInputBatch to itself without
 inserting a vector into itself

---
 ink/strokes/input/stroke_input_batch.cc | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/ink/strokes/input/stroke_input_batch.cc b/ink/strokes/input/stroke_input_batch.cc
index d22da46..07e0461 100644
--- a/ink/strokes/input/stroke_input_batch.cc
+++ b/ink/strokes/input/stroke_input_batch.cc
@@ -345,10 +345,13 @@ absl::Status StrokeInputBatch::Append(const StrokeInputBatch& inputs) {
   // this function will be called repeatedly with relatively small batches of
   // new inputs.
 
+  // Holding on to `inputs`'s data makes `MutableValue()` below detach from it,
+  // so that appending a batch to itself doesn't insert a vector into itself.
+  const StrokeInputBatch appended = inputs;
   std::vector<float>& data = data_.MutableValue();
-  const std::vector<float>& append_data = inputs.data_.Value();
+  const std::vector<float>& append_data = appended.data_.Value();
   data.insert(data.end(), append_data.begin(), append_data.end());
-  size_ += inputs.Size();
+  size_ += appended.Size();
 
   return absl::OkStatus();
 }
-- 
2.43.0


From 1353b93cb6a06142bc46fd8a3d0b0161f3ac9d9f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:08:06 +0000
Subject: [PATCH 19/51] fix: erase predicted inputs whose geometry is cleared
 from InProgressStroke

---
 ink/strokes/in_progress_stroke.cc | 8 +++-----
 1 file changed, 3 insertions(+), 5 deletions(-)

diff --git a/ink/strokes/in_progress_stroke.cc b/ink/strokes/in_progress_stroke.cc
index fb38212..e63e25c 100644
--- a/ink/strokes/in_progress_stroke.cc
+++ b/ink/strokes/in_progress_stroke.cc
@@ -122,11 +122,9 @@ absl::Status InProgressStroke::UpdateShape(Duration32 current_elapsed_time) {
       !status.ok()) {
     return status;
   }
-  if (inputs_are_finished_ || !queued_real_inputs_.IsEmpty() ||
-      !queued_predicted_inputs_.IsEmpty()) {
-    // Erase any old predicted inputs.
-    processed_inputs_.Erase(real_input_count_);
-  }
+  // Erase any old predicted inputs, as their geometry is cleared below even if
+  // there are no new inputs.
+  processed_inputs_.Erase(real_input_count_);
 
   if (absl::Status status = processed_inputs_.Append(queued_real_inputs_);
       !status.ok()) {
-- 
2.43.0


From 04e0bd772a916be63b9cb39b545b2374f3c058da Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:08:06 +0000
Subject: [PATCH 20/51] fix: re-model the end of a stroke when predictions
 without effect are dropped

---
 ink/strokes/internal/stroke_input_modeler.cc | 12 ++++++++----
 ink/strokes/internal/stroke_input_modeler.h  |  3 +++
 2 files changed, 11 insertions(+), 4 deletions(-)

diff --git a/ink/strokes/internal/stroke_input_modeler.cc b/ink/strokes/internal/stroke_input_modeler.cc
index d278753..3451e59 100644
--- a/ink/strokes/internal/stroke_input_modeler.cc
+++ b/ink/strokes/internal/stroke_input_modeler.cc
@@ -56,6 +56,7 @@ void StrokeInputModeler::StartStroke(const BrushFamily::InputModel& input_model,
   input_model_ = input_model;
   brush_epsilon_ = brush_epsilon;
   last_real_stroke_input_.reset();
+  has_predicted_inputs_ = false;
   state_.tool_type = StrokeInput::ToolType::kUnknown;
   state_.stroke_unit_length = std::nullopt;
   state_.complete_elapsed_time = Duration32::Zero();
@@ -176,12 +177,15 @@ void StrokeInputModeler::ExtendStroke(const StrokeInputBatch& real_inputs,
   };
 
   if (real_inputs.IsEmpty() && predicted_inputs.IsEmpty() &&
-      state_.real_input_count == modeled_inputs_.size()) {
-    // We can return early, because there are no new inputs, and none of the
-    // modeled inputs came from previous `predicted_inputs`. This allows us to
-    // skip re-modeling the `last_real_stroke_input_`.
+      !has_predicted_inputs_) {
+    // We can return early, because there are no new inputs, and the
+    // `last_real_stroke_input_` was modeled as the end of the stroke. This
+    // allows us to skip re-modeling it. Note that the end of the stroke may
+    // have been modeled from previous `predicted_inputs` even if these did not
+    // add any modeled inputs.
     return;
   }
+  has_predicted_inputs_ = !predicted_inputs.IsEmpty();
 
   if (!last_real_stroke_input_.has_value()) {
     state_.tool_type = real_inputs.IsEmpty() ? predicted_inputs.GetToolType()
diff --git a/ink/strokes/internal/stroke_input_modeler.h b/ink/strokes/internal/stroke_input_modeler.h
index 1063679..2b958fd 100644
--- a/ink/strokes/internal/stroke_input_modeler.h
+++ b/ink/strokes/internal/stroke_input_modeler.h
@@ -178,6 +178,9 @@ class StrokeInputModeler {
   stroke_model::StrokeModeler stroke_modeler_;
   std::vector<stroke_model::Result> result_buffer_;
   std::optional<StrokeInput> last_real_stroke_input_;
+  // True if the last call to `ExtendStroke()` that modeled any inputs had
+  // `predicted_inputs`.
+  bool has_predicted_inputs_ = false;
   // All modeled inputs for a stroke.
   std::vector<ModeledStrokeInput> modeled_inputs_;
   bool stroke_modeler_has_input_ = false;
-- 
2.43.0


From e583db0a4fe10e6fd18c0c808e5729d021f1a731 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:08:06 +0000
Subject: [PATCH 21/51] fix: use the unit length of predicted inputs when a
 stroke starts with these

---
 ink/strokes/internal/stroke_input_modeler.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ink/strokes/internal/stroke_input_modeler.cc b/ink/strokes/internal/stroke_input_modeler.cc
index 3451e59..5635b90 100644
--- a/ink/strokes/internal/stroke_input_modeler.cc
+++ b/ink/strokes/internal/stroke_input_modeler.cc
@@ -194,7 +194,7 @@ void StrokeInputModeler::ExtendStroke(const StrokeInputBatch& real_inputs,
                                     ? predicted_inputs.GetStrokeUnitLength()
                                     : real_inputs.GetStrokeUnitLength();
     ResetStrokeModeler(stroke_modeler_, input_model_, brush_epsilon_,
-                       real_inputs.GetStrokeUnitLength());
+                       state_.stroke_unit_length);
     stroke_modeler_has_input_ = false;
   }
 
-- 
2.43.0


From bc764c2395e30fdbad830125a2220397aab67613 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:17:48 +0000
Subject: [PATCH 22/51] fix: make tip modeling wait for the next input when a
 tip offset follows the direction of travel

---
 ink/strokes/internal/brush_tip_modeler.cc | 13 +++++++++++++
 1 file changed, 13 insertions(+)

diff --git a/ink/strokes/internal/brush_tip_modeler.cc b/ink/strokes/internal/brush_tip_modeler.cc
index b96db30..8e5a197 100644
--- a/ink/strokes/internal/brush_tip_modeler.cc
+++ b/ink/strokes/internal/brush_tip_modeler.cc
@@ -260,6 +260,16 @@ bool SourceDependsOnNextModeledInput(BrushBehavior::Source source) {
   return false;
 }
 
+bool TargetDependsOnNextModeledInput(BrushBehavior::Target target) {
+  // These offsets are applied relative to the direction of travel, which is
+  // determined using the next modeled input.
+  return target ==
+             BrushBehavior::Target::
+                 kPositionOffsetForwardInMultiplesOfBrushSize ||
+         target == BrushBehavior::Target::
+                       kPositionOffsetLateralInMultiplesOfBrushSize;
+}
+
 Duration32 TimeSinceLastInput(
     const StrokeInputModeler::State& input_modeler_state) {
   // TODO: b/287041801 - Do we need to consider predicted inputs here too?
@@ -370,6 +380,9 @@ void BrushTipModeler::AppendBehaviorNode(
       .target_modifier_range = node.target_modifier_range,
   });
   behavior_targets_.push_back(node.target);
+  if (TargetDependsOnNextModeledInput(node.target)) {
+    behaviors_depend_on_next_input_ = true;
+  }
   float initial_modifier = InitialTargetModifierValue(node.target);
   current_target_modifiers_.push_back(initial_modifier);
   fixed_target_modifiers_.push_back(initial_modifier);
-- 
2.43.0


From e09580688fbd32ed754b95c5dba442078308148c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:23:43 +0000
Subject: [PATCH 23/51] fix: do not crash for brush tips at the limits of
 floating-point precision

---
 ink/strokes/internal/brush_tip_shape.cc | 36 +++++++++++++++----------
 1 file changed, 22 insertions(+), 14 deletions(-)

diff --git a/ink/strokes/internal/brush_tip_shape.cc b/ink/strokes/internal/brush_tip_shape.cc
index 13a5536..0a34a22 100644
--- a/ink/strokes/internal/brush_tip_shape.cc
+++ b/ink/strokes/internal/brush_tip_shape.cc
@@ -368,9 +368,13 @@ BrushTipShape::TangentCircleIndices BrushTipShape::GetTangentCircleIndices(
         first.circles_[next_candidate_index_on_first], forward,
         TangentSide::kLeft);
 
-    // Circles in the same `BrushTipShape` should never contain one another, so
-    // we should always be able to find tangents.
-    ABSL_CHECK(tangent.has_value());
+    // Circles in the same `BrushTipShape` should never contain one another, but
+    // they may be indistinguishable because of limited floating-point precision
+    // far away from the origin.
+    if (!tangent.has_value()) {
+      candidate_index_on_first = next_candidate_index_on_first;
+      continue;
+    }
 
     if (auto index_on_second =
             GetLeftmostTurningIndex(first.circles_[candidate_index_on_first],
@@ -386,10 +390,10 @@ BrushTipShape::TangentCircleIndices BrushTipShape::GetTangentCircleIndices(
     // find an index on `second`.
     std::optional<int> index_on_second = GetLeftmostTurningIndex(
         first.circles_[indices.left.first], forward, second, -kHalfTurn);
-    // It should be impossible for the second index to not have a value. At
-    // least one control point in second should not be traveling backwards from
-    // the rearmost control point in `first`.
-    ABSL_DCHECK(index_on_second.has_value());
+    // There may still be no value, if reaching any of the circles of `second`
+    // from the rearmost circle of `first` takes more than a quarter turn. The
+    // tangents between these two shapes are bad then in most cases; see
+    // `BrushTipExtrusion::EvaluateTangentQuality`.
     indices.left.second = index_on_second.value_or(0);
   }
 
@@ -404,9 +408,13 @@ BrushTipShape::TangentCircleIndices BrushTipShape::GetTangentCircleIndices(
         first.circles_[next_candidate_index_on_first], forward,
         TangentSide::kRight);
 
-    // Circles in the same `BrushTipShape` should never contain one another, so
-    // we should always be able to find tangents.
-    ABSL_CHECK(tangent.has_value());
+    // Circles in the same `BrushTipShape` should never contain one another, but
+    // they may be indistinguishable because of limited floating-point precision
+    // far away from the origin.
+    if (!tangent.has_value()) {
+      candidate_index_on_first = next_candidate_index_on_first;
+      continue;
+    }
 
     if (auto index_on_second =
             GetRightmostTurningIndex(first.circles_[candidate_index_on_first],
@@ -422,10 +430,10 @@ BrushTipShape::TangentCircleIndices BrushTipShape::GetTangentCircleIndices(
     // index on `second`.
     std::optional<int> index_on_second = GetRightmostTurningIndex(
         first.circles_[indices.right.first], forward, second, kHalfTurn);
-    // It should be impossible for the second index to not have a value. At
-    // least one control point in second should not be traveling backwards from
-    // the rearmost control point in `first`.
-    ABSL_DCHECK(index_on_second.has_value());
+    // There may still be no value, if reaching any of the circles of `second`
+    // from the rearmost circle of `first` takes more than a quarter turn. The
+    // tangents between these two shapes are bad then in most cases; see
+    // `BrushTipExtrusion::EvaluateTangentQuality`.
     indices.right.second = index_on_second.value_or(0);
   }
 
-- 
2.43.0


From fd7ad3db2a39c3d0d7eaf59717f3b74f5fb44db5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:24:12 +0000
Subject: [PATCH 24/51] fix: keep stroke bounds minimal when extruded vertices
 are repositioned

---
 ink/strokes/internal/brush_tip_extruder.cc    | 13 +++++++++++
 ink/strokes/internal/brush_tip_extruder.h     |  5 ++++
 .../internal/brush_tip_extruder/geometry.cc   | 11 +++++++++
 .../internal/brush_tip_extruder/geometry.h    | 23 +++++++++++++++++++
 4 files changed, 52 insertions(+)

diff --git a/ink/strokes/internal/brush_tip_extruder.cc b/ink/strokes/internal/brush_tip_extruder.cc
index eef4538..6847e32 100644
--- a/ink/strokes/internal/brush_tip_extruder.cc
+++ b/ink/strokes/internal/brush_tip_extruder.cc
@@ -172,7 +172,18 @@ void UpdateCachedPartialBoundsForSide(
 
 }  // namespace
 
+void BrushTipExtruder::ClearCachedPartialBoundsIfVerticesMoved() {
+  if (geometry_.FirstMovedLeftIndexOffset() <
+          bounds_.cached_partial_bounds_left_index_count ||
+      geometry_.FirstMovedRightIndexOffset() <
+          bounds_.cached_partial_bounds_right_index_count) {
+    ClearCachedPartialBounds();
+  }
+}
+
 void BrushTipExtruder::UpdateCachedPartialBounds() {
+  ClearCachedPartialBoundsIfVerticesMoved();
+
   // Note that updating the cached partial bounds is strictly a performance
   // optimization, and the effect of calling the following two functions would
   // only be observable through benchmarks. If they were not called,
@@ -191,6 +202,8 @@ void BrushTipExtruder::UpdateCachedPartialBounds() {
 }
 
 void BrushTipExtruder::UpdateCurrentBounds() {
+  ClearCachedPartialBoundsIfVerticesMoved();
+
   bounds_.current = bounds_.cached_partial_bounds;
 
   AddPositionsToEnvelope(
diff --git a/ink/strokes/internal/brush_tip_extruder.h b/ink/strokes/internal/brush_tip_extruder.h
index a153906..9882ff6 100644
--- a/ink/strokes/internal/brush_tip_extruder.h
+++ b/ink/strokes/internal/brush_tip_extruder.h
@@ -131,6 +131,11 @@ class BrushTipExtruder {
   // partial bounds were mutated or deleted.
   void ClearCachedPartialBounds();
 
+  // Clears the value of `bounds_.cached_partial_bounds` if any of the vertices
+  // that contributed to it changed position since the start of the current call
+  // to `ExtendStroke()`, e.g. in order to resolve a self-intersection.
+  void ClearCachedPartialBoundsIfVerticesMoved();
+
   // Updates the value of `bounds_.cached_partial_bounds`.
   //
   // This function expects to be called right after `ExtendStroke()` has
diff --git a/ink/strokes/internal/brush_tip_extruder/geometry.cc b/ink/strokes/internal/brush_tip_extruder/geometry.cc
index d94e6ad..a509183 100644
--- a/ink/strokes/internal/brush_tip_extruder/geometry.cc
+++ b/ink/strokes/internal/brush_tip_extruder/geometry.cc
@@ -283,6 +283,8 @@ void Geometry::ResetMutationTracking() {
       left_side_.indices.size();
   first_mutated_right_index_offset_in_current_partition_ =
       right_side_.indices.size();
+  first_moved_left_index_offset_ = std::numeric_limits<uint32_t>::max();
+  first_moved_right_index_offset_ = std::numeric_limits<uint32_t>::max();
 }
 
 namespace {
@@ -2971,6 +2973,15 @@ void Geometry::SetVertex(IndexType index, const ExtrudedVertex& new_vertex,
     UpdateFirstMutatedSideIndexValue(index, first_mutated_right_index_);
   }
 
+  if (mesh_.GetPosition(index) != new_vertex.position) {
+    uint32_t& first_moved_index_offset =
+        vertex_side_ids_[index] == SideId::kLeft
+            ? first_moved_left_index_offset_
+            : first_moved_right_index_offset_;
+    first_moved_index_offset =
+        std::min(first_moved_index_offset, side_offsets_[index]);
+  }
+
   mesh_.SetVertex(index, new_vertex);
 }
 
diff --git a/ink/strokes/internal/brush_tip_extruder/geometry.h b/ink/strokes/internal/brush_tip_extruder/geometry.h
index 40a3951..09b15e9 100644
--- a/ink/strokes/internal/brush_tip_extruder/geometry.h
+++ b/ink/strokes/internal/brush_tip_extruder/geometry.h
@@ -18,6 +18,7 @@
 #include <array>
 #include <cstddef>
 #include <cstdint>
+#include <limits>
 #include <optional>
 #include <vector>
 
@@ -168,6 +169,13 @@ class Geometry {
   uint32_t FirstMutatedLeftIndexOffsetInCurrentPartition() const;
   uint32_t FirstMutatedRightIndexOffsetInCurrentPartition() const;
 
+  // The following return the smallest offsets into `Side::indices` for vertices
+  // of the left and right sides that had their position changed since the most
+  // recent call to either `Reset()` or `ResetMutationTracking()`. This is
+  // `UINT32_MAX` for a side without such a vertex.
+  uint32_t FirstMovedLeftIndexOffset() const;
+  uint32_t FirstMovedRightIndexOffset() const;
+
   const MutableMeshView& GetMeshView() const;
 
   // Resets the values of member variables tracking mutations, including the
@@ -699,6 +707,13 @@ class Geometry {
   uint32_t first_mutated_left_index_offset_in_current_partition_ = 0;
   uint32_t first_mutated_right_index_offset_in_current_partition_ = 0;
 
+  // The following members keep track of existing vertices of each side that
+  // change position.
+  uint32_t first_moved_left_index_offset_ =
+      std::numeric_limits<uint32_t>::max();
+  uint32_t first_moved_right_index_offset_ =
+      std::numeric_limits<uint32_t>::max();
+
   DerivativeCalculator derivative_calculator_;
 };
 
@@ -720,6 +735,14 @@ inline uint32_t Geometry::FirstMutatedLeftIndexOffsetInCurrentPartition()
   return first_mutated_left_index_offset_in_current_partition_;
 }
 
+inline uint32_t Geometry::FirstMovedLeftIndexOffset() const {
+  return first_moved_left_index_offset_;
+}
+
+inline uint32_t Geometry::FirstMovedRightIndexOffset() const {
+  return first_moved_right_index_offset_;
+}
+
 inline uint32_t Geometry::FirstMutatedRightIndexOffsetInCurrentPartition()
     const {
   return first_mutated_right_index_offset_in_current_partition_;
-- 
2.43.0


From 233775a1e49872533358db659506f1e86d8c66d2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:35:42 +0000
Subject: [PATCH 25/51] fix: do not let the batching of inputs decide which
 brush tip states are extruded

---
 ink/strokes/internal/brush_tip_extruder.cc | 30 ++++++++++++++++------
 ink/strokes/internal/brush_tip_extruder.h  |  7 +++--
 2 files changed, 27 insertions(+), 10 deletions(-)

diff --git a/ink/strokes/internal/brush_tip_extruder.cc b/ink/strokes/internal/brush_tip_extruder.cc
index 6847e32..19d20b4 100644
--- a/ink/strokes/internal/brush_tip_extruder.cc
+++ b/ink/strokes/internal/brush_tip_extruder.cc
@@ -64,6 +64,7 @@ void BrushTipExtruder::StartStroke(float brush_epsilon,
   simplification_threshold_ = GetSimplificationThreshold(brush_epsilon);
   is_winding_texture_particle_brush_ = is_winding_texture_particle_brush;
   extrusions_.clear();
+  rejected_last_fixed_state_.reset();
   saved_extrusion_data_count_ = 0;
   deleted_save_point_extrusions_.clear();
   geometry_.Reset(MutableMeshView(mesh));
@@ -109,10 +110,14 @@ StrokeShapeUpdate BrushTipExtruder::ExtendStroke(
 
   Restore();
 
-  for (size_t i = 0; i < new_fixed_states.size(); ++i) {
-    const BrushTipState& tip_state = new_fixed_states[i];
-    Extrude(tip_state, /* is_volatile_state = */ false,
-            volatile_states.empty() && i == new_fixed_states.size() - 1);
+  for (const BrushTipState& tip_state : new_fixed_states) {
+    bool accepted = Extrude(tip_state, /* is_volatile_state = */ false,
+                            /* is_last_state = */ false);
+    if (accepted) {
+      rejected_last_fixed_state_.reset();
+    } else {
+      rejected_last_fixed_state_ = tip_state;
+    }
   }
 
   UpdateCachedPartialBounds();
@@ -123,6 +128,14 @@ StrokeShapeUpdate BrushTipExtruder::ExtendStroke(
     Extrude(tip_state, /* is_volatile_state = */ true,
             i == volatile_states.size() - 1);
   }
+  if (volatile_states.empty() && rejected_last_fixed_state_.has_value()) {
+    // Give the last fixed state another chance, so that the stroke does not lag
+    // behind the input. It is extruded as volatile, because it may no longer be
+    // the last one in the next update; the resulting shape should not depend on
+    // how the states are split up over updates.
+    Extrude(*rejected_last_fixed_state_, /* is_volatile_state = */ true,
+            /* is_last_state = */ true);
+  }
 
   ExtrudeBreakPoint();
   UpdateCurrentBounds();
@@ -460,21 +473,21 @@ void ExtrudeGeometry(const ExtrusionPoints& points,
 
 }  // namespace
 
-void BrushTipExtruder::Extrude(const BrushTipState& tip_state,
+bool BrushTipExtruder::Extrude(const BrushTipState& tip_state,
                                bool is_volatile_state, bool is_last_state) {
   if (tip_state.width < brush_epsilon_ && tip_state.height < brush_epsilon_) {
     ExtrudeBreakPoint();
-    return;
+    return true;
   }
 
   if (!TryAppendNonBreakPointState(tip_state, is_volatile_state, is_last_state))
-    return;
+    return false;
 
   auto end_iter = extrusions_.end();
   if (extrusions_.size() < 2 || (end_iter - 2)->IsBreakPoint()) {
     // There is nothing for this function to do with fewer than two
     // non-break-point extrusion data.
-    return;
+    return true;
   }
 
   current_extrusion_points_.left.clear();
@@ -499,6 +512,7 @@ void BrushTipExtruder::Extrude(const BrushTipState& tip_state,
   ExtrudeGeometry(current_extrusion_points_, extruded_state,
                   simplification_threshold_, is_winding_texture_particle_brush_,
                   geometry_);
+  return true;
 }
 
 void BrushTipExtruder::ExtrudeBreakPoint() {
diff --git a/ink/strokes/internal/brush_tip_extruder.h b/ink/strokes/internal/brush_tip_extruder.h
index 9882ff6..256718e 100644
--- a/ink/strokes/internal/brush_tip_extruder.h
+++ b/ink/strokes/internal/brush_tip_extruder.h
@@ -17,6 +17,7 @@
 
 #include <cstddef>
 #include <cstdint>
+#include <optional>
 #include <vector>
 
 #include "absl/container/inlined_vector.h"
@@ -184,8 +185,8 @@ class BrushTipExtruder {
   // indicates whether `tip_state` is volatile (see `ExtendStroke`).
   // `is_last_state` indicates whether `tip_state` is the last state in the
   // batch passed to `ExtendStroke`, which may be either a fixed or volatile
-  // state.
-  void Extrude(const BrushTipState& tip_state, bool is_volatile_state,
+  // state. Returns `false` if `tip_state` was rejected.
+  bool Extrude(const BrushTipState& tip_state, bool is_volatile_state,
                bool is_last_state);
 
   // Extrudes the end of a contiguous section of the stroke from up to the last
@@ -204,6 +205,8 @@ class BrushTipExtruder {
   // "constrain" tip state dynamics more so than stamping would, and that logic
   // would live inside this type and use older tip data.
   std::vector<BrushTipExtrusion> extrusions_;
+  // The last fixed state passed to `ExtendStroke`, if it was rejected.
+  std::optional<BrushTipState> rejected_last_fixed_state_;
   // The size of `extrusion_data_` at the last call to `Save()` or
   // `StartStroke()`.
   size_t saved_extrusion_data_count_ = 0;
-- 
2.43.0


From a24ca6e7c399f299de9cafc9987aa94522f0eb77 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:37:00 +0000
Subject: [PATCH 26/51] fix: merge the circles of a brush tip shape that
 coincide in single precision

---
 ink/strokes/internal/brush_tip_shape.cc | 24 ++++++++++++++++++++++--
 1 file changed, 22 insertions(+), 2 deletions(-)

diff --git a/ink/strokes/internal/brush_tip_shape.cc b/ink/strokes/internal/brush_tip_shape.cc
index 0a34a22..c45f242 100644
--- a/ink/strokes/internal/brush_tip_shape.cc
+++ b/ink/strokes/internal/brush_tip_shape.cc
@@ -143,14 +143,34 @@ SmallArray<Circle, 4> MakeShapeControlCircles(
   };
 }
 
+// Returns `circles` without those that have the same center as the next circle.
+//
+// `MakeShapeControlCircles` keeps the centers apart relative to the position of
+// the tip, but they may still end up being the same because of the limited
+// precision of floating-point coordinates far away from the origin.
+SmallArray<Circle, 4> MergeCoincidentCircles(
+    const SmallArray<Circle, 4>& circles) {
+  absl::InlinedVector<Circle, 4> distinct;
+  for (const Circle& circle : circles.Values()) {
+    if (distinct.empty() || circle.Center() != distinct.back().Center()) {
+      distinct.push_back(circle);
+    }
+  }
+  if (distinct.size() > 1 &&
+      distinct.back().Center() == distinct.front().Center()) {
+    distinct.pop_back();
+  }
+  return SmallArray<Circle, 4>(absl::MakeConstSpan(distinct));
+}
+
 }  // namespace
 
 BrushTipShape::BrushTipShape(const BrushTipState& tip_state,
                              float min_nonzero_radius_and_separation)
     : center_(tip_state.position),
-      circles_(MakeShapeControlCircles(
+      circles_(MergeCoincidentCircles(MakeShapeControlCircles(
           tip_state, std::max(min_nonzero_radius_and_separation,
-                              std::numeric_limits<float>::min()))) {}
+                              std::numeric_limits<float>::min())))) {}
 
 Point BrushTipShape::Center() const { return center_; }
 
-- 
2.43.0


From 055528b601da1a2f001d67d0259021c74d59dbf9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:40:21 +0000
Subject: [PATCH 27/51] fix: treat brush tips without tangents at the precision
 limit as badly connected

---
 ink/strokes/internal/brush_tip_extrusion.cc | 23 +++++++++++++++++----
 1 file changed, 19 insertions(+), 4 deletions(-)

diff --git a/ink/strokes/internal/brush_tip_extrusion.cc b/ink/strokes/internal/brush_tip_extrusion.cc
index a720bfa..e1c5c29 100644
--- a/ink/strokes/internal/brush_tip_extrusion.cc
+++ b/ink/strokes/internal/brush_tip_extrusion.cc
@@ -2,6 +2,7 @@
 
 #include <algorithm>
 #include <cstdlib>
+#include <optional>
 
 #include "absl/container/inlined_vector.h"
 #include "absl/log/absl_check.h"
@@ -34,7 +35,11 @@ using ::ink::geometry_internal::Circle;
 // guaranteed to be contained in the returned shape; e.g. you could have two
 // rectangular `BrushTipShape`s that form a cross, which would leave two
 // circles outside the `RoundedPolygon`.
-static RoundedPolygon ConstructJoinedShape(
+//
+// Returns `std::nullopt` if there are no tangents between consecutive circles,
+// which is possible when the coordinates or `offset` are so large that the
+// circles can't be told apart.
+static std::optional<RoundedPolygon> ConstructJoinedShape(
     const BrushTipShape& first, const BrushTipShape& second,
     const BrushTipShape::TangentCircleIndices& indices, float offset) {
   ABSL_DCHECK(!first.Contains(second));
@@ -64,6 +69,12 @@ static RoundedPolygon ConstructJoinedShape(
   add_circles(first, indices.left.first, indices.right.first);
   add_circles(second, indices.right.second, indices.left.second);
 
+  const Circle* last = &circles.back();
+  for (const Circle& circle : circles) {
+    if (last->Contains(circle) || circle.Contains(*last)) return std::nullopt;
+    last = &circle;
+  }
+
   return RoundedPolygon(circles);
 }
 
@@ -113,22 +124,26 @@ BrushTipExtrusion::TangentQuality EvaluateTangentQualityInternal(
   float offset = 1e-6 * max_absolute_coordinate;
 
   // Construct the joined shape, with the offset.
-  RoundedPolygon joined_shape =
+  std::optional<RoundedPolygon> joined_shape =
       ConstructJoinedShape(first, second, indices, offset);
+  if (!joined_shape.has_value()) {
+    return BrushTipExtrusion::TangentQuality::
+        kBadTangentsJoinedShapeDoesNotCoverInputShapes;
+  }
 
   // Finally, check whether the unused circles are contained inside the joined
   // shape.
   for (int index = first.GetNextPerimeterIndexCcw(indices.right.first);
        index != indices.left.first;
        index = first.GetNextPerimeterIndexCcw(index)) {
-    if (!joined_shape.ContainsCircle(first.PerimeterCircles()[index]))
+    if (!joined_shape->ContainsCircle(first.PerimeterCircles()[index]))
       return BrushTipExtrusion::TangentQuality::
           kBadTangentsJoinedShapeDoesNotCoverInputShapes;
   }
   for (int index = second.GetNextPerimeterIndexCcw(indices.left.second);
        index != indices.right.second;
        index = second.GetNextPerimeterIndexCcw(index)) {
-    if (!joined_shape.ContainsCircle(second.PerimeterCircles()[index]))
+    if (!joined_shape->ContainsCircle(second.PerimeterCircles()[index]))
       return BrushTipExtrusion::TangentQuality::
           kBadTangentsJoinedShapeDoesNotCoverInputShapes;
   }
-- 
2.43.0


From 0af06dd494b084ae6ac32dca158d7fc3f6dd926a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:55:36 +0000
Subject: [PATCH 28/51] fix: do not generate NaN texture coordinates for
 particles without width or height

---
 ink/strokes/internal/brush_tip_extruder.cc | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/ink/strokes/internal/brush_tip_extruder.cc b/ink/strokes/internal/brush_tip_extruder.cc
index 19d20b4..bdae4b0 100644
--- a/ink/strokes/internal/brush_tip_extruder.cc
+++ b/ink/strokes/internal/brush_tip_extruder.cc
@@ -16,6 +16,7 @@
 
 #include <algorithm>
 #include <array>
+#include <cmath>
 #include <cstddef>
 #include <cstdint>
 #include <iterator>
@@ -412,11 +413,16 @@ namespace {
 // `StrokeVertex::surface_uv`.
 AffineTransform ComputeParticleSurfaceUvTransform(
     const BrushTipState& tip_state) {
+  // If one of the tip dimensions is zero, then every vertex lies at the middle
+  // of that dimension.
+  float x_scale = 1.0f / tip_state.width;
+  if (!std::isfinite(x_scale)) x_scale = 0;
+  float y_scale = 1.0f / tip_state.height;
+  if (!std::isfinite(y_scale)) y_scale = 0;
   // This transform takes tip size, position, and rotation into account, but
   // deliberately ignores tip slant, pinch, and corner rounding.
   return AffineTransform::Translate({0.5, 0.5}) *
-         AffineTransform::Scale(1.0f / tip_state.width,
-                                1.0f / tip_state.height) *
+         AffineTransform::Scale(x_scale, y_scale) *
          AffineTransform::Rotate(-tip_state.rotation) *
          AffineTransform::Translate(
              {-tip_state.position.x, -tip_state.position.y});
-- 
2.43.0


From 85f199ebd992e88d2ee7742c882610a61e7860c3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:08:41 +0000
Subject: [PATCH 29/51] fix: drop outlines that use no vertex of any triangle
 when making partitioned meshes

---
 ink/geometry/partitioned_mesh.cc | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/ink/geometry/partitioned_mesh.cc b/ink/geometry/partitioned_mesh.cc
index cee5eb5..4176228 100644
--- a/ink/geometry/partitioned_mesh.cc
+++ b/ink/geometry/partitioned_mesh.cc
@@ -160,6 +160,9 @@ absl::StatusOr<PartitionedMesh> PartitionedMesh::FromMutableMeshGroups(
             outline_index_pairs.push_back(it->second);
           }
         }
+        // Vertices that aren't used by any triangle don't exist in the
+        // partitioned mesh, so there may be nothing left of the outline.
+        if (outline_index_pairs.empty()) group_partitioned_outlines.pop_back();
       }
     }
 
-- 
2.43.0


From a9773267d12b2cfa5a15dff16702af6c23cbe527 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:08:41 +0000
Subject: [PATCH 30/51] fix: treat target modifiers that overflow as null

---
 ink/strokes/internal/brush_tip_modeler_helpers.cc | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/ink/strokes/internal/brush_tip_modeler_helpers.cc b/ink/strokes/internal/brush_tip_modeler_helpers.cc
index cf52d25..6225113 100644
--- a/ink/strokes/internal/brush_tip_modeler_helpers.cc
+++ b/ink/strokes/internal/brush_tip_modeler_helpers.cc
@@ -465,8 +465,12 @@ void ProcessBehaviorNodeImpl(const TargetNodeImplementation& node,
   float input = context.stack.back();
   context.stack.pop_back();
   if (IsNullBehaviorNodeValue(input)) return;
-  context.target_modifiers[node.target_index] =
+  float modifier =
       Lerp(node.target_modifier_range[0], node.target_modifier_range[1], input);
+  // If the modifier is non-finite (e.g. overflow to infinity), treat the result
+  // as null.
+  if (!std::isfinite(modifier)) return;
+  context.target_modifiers[node.target_index] = modifier;
 }
 
 }  // namespace
-- 
2.43.0


From 3fbbb504258c2966d4e39816c974210f54c1d7a1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:25:36 +0000
Subject: [PATCH 31/51] fix: keep missing stylus properties missing when
 interpolating modeled inputs

---
 .../internal/brush_tip_modeler_helpers.cc     | 19 +++++++++++++++----
 1 file changed, 15 insertions(+), 4 deletions(-)

diff --git a/ink/strokes/internal/brush_tip_modeler_helpers.cc b/ink/strokes/internal/brush_tip_modeler_helpers.cc
index 6225113..ad7d88f 100644
--- a/ink/strokes/internal/brush_tip_modeler_helpers.cc
+++ b/ink/strokes/internal/brush_tip_modeler_helpers.cc
@@ -646,10 +646,21 @@ ModeledStrokeInput Lerp(const ModeledStrokeInput& a,
                                                        b.traveled_distance, t),
           .elapsed_time = Duration32::Millis(geometry_internal::Lerp(
               a.elapsed_time.ToMillis(), b.elapsed_time.ToMillis(), t)),
-          .pressure = geometry_internal::Lerp(a.pressure, b.pressure, t),
-          .tilt = geometry_internal::Lerp(a.tilt, b.tilt, t),
-          .orientation = geometry_internal::NormalizedAngleLerp(
-              a.orientation, b.orientation, t)};
+          // Properties that are not present on the stroke's inputs must remain
+          // exactly equal to the respective sentinel values.
+          .pressure = a.pressure == StrokeInput::kNoPressure ||
+                              b.pressure == StrokeInput::kNoPressure
+                          ? StrokeInput::kNoPressure
+                          : geometry_internal::Lerp(a.pressure, b.pressure, t),
+          .tilt = a.tilt == StrokeInput::kNoTilt ||
+                          b.tilt == StrokeInput::kNoTilt
+                      ? StrokeInput::kNoTilt
+                      : geometry_internal::Lerp(a.tilt, b.tilt, t),
+          .orientation = a.orientation == StrokeInput::kNoOrientation ||
+                                 b.orientation == StrokeInput::kNoOrientation
+                             ? StrokeInput::kNoOrientation
+                             : geometry_internal::NormalizedAngleLerp(
+                                   a.orientation, b.orientation, t)};
 }
 
 }  // namespace ink::strokes_internal
-- 
2.43.0


From b3faee09ef2c6b3220a813d2ab96c6b9eb4c81cf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:27:33 +0000
Subject: [PATCH 32/51] fix: do not drop particles when rounding makes the last
 tip state exceed the input metrics

---
 ink/strokes/internal/brush_tip_modeler.cc | 17 +++++++++++------
 1 file changed, 11 insertions(+), 6 deletions(-)

diff --git a/ink/strokes/internal/brush_tip_modeler.cc b/ink/strokes/internal/brush_tip_modeler.cc
index 8e5a197..32db224 100644
--- a/ink/strokes/internal/brush_tip_modeler.cc
+++ b/ink/strokes/internal/brush_tip_modeler.cc
@@ -545,12 +545,17 @@ void BrushTipModeler::ProcessSingleInput(
       .elapsed_time = current_input.elapsed_time - previous_input->elapsed_time,
   };
 
-  while ((current_input.traveled_distance -
-          last_modeled_tip_state_metrics->traveled_distance) >=
-             particle_gap_metrics_.traveled_distance &&
-         (current_input.elapsed_time -
-          last_modeled_tip_state_metrics->elapsed_time) >=
-             particle_gap_metrics_.elapsed_time) {
+  // A gap metric of zero imposes no restriction. Note that rounding can make
+  // the metrics of the last tip state slightly exceed those of the input it was
+  // interpolated from, so the difference may be negative in that case.
+  while ((particle_gap_metrics_.traveled_distance == 0 ||
+          (current_input.traveled_distance -
+           last_modeled_tip_state_metrics->traveled_distance) >=
+              particle_gap_metrics_.traveled_distance) &&
+         (particle_gap_metrics_.elapsed_time == Duration32::Zero() ||
+          (current_input.elapsed_time -
+           last_modeled_tip_state_metrics->elapsed_time) >=
+              particle_gap_metrics_.elapsed_time)) {
     // Calculate an interpolation value from the current input toward the
     // previous input for the new particle tip state.
     float t = 1.f;
-- 
2.43.0


From 95e6acc98d3692430353207d7181fb7e85777fe5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:27:33 +0000
Subject: [PATCH 33/51] fix: reset the traveled distance of the input modeler
 when it has no modeled inputs

---
 ink/strokes/internal/stroke_input_modeler.cc | 1 +
 1 file changed, 1 insertion(+)

diff --git a/ink/strokes/internal/stroke_input_modeler.cc b/ink/strokes/internal/stroke_input_modeler.cc
index 5635b90..125239c 100644
--- a/ink/strokes/internal/stroke_input_modeler.cc
+++ b/ink/strokes/internal/stroke_input_modeler.cc
@@ -315,6 +315,7 @@ void StrokeInputModeler::UpdateStateTimeAndDistance(
     Duration32 current_elapsed_time) {
   if (modeled_inputs_.empty()) {
     state_.complete_elapsed_time = current_elapsed_time;
+    state_.complete_traveled_distance = 0;
     return;
   }
 
-- 
2.43.0


From 5d8deacc5ce3654ae018fe04ff771ada267cae8a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:42:47 +0000
Subject: [PATCH 34/51] fix: keep combined target modifiers finite

---
 .../internal/brush_tip_modeler_helpers.cc     | 46 ++++++++++++++-----
 1 file changed, 34 insertions(+), 12 deletions(-)

diff --git a/ink/strokes/internal/brush_tip_modeler_helpers.cc b/ink/strokes/internal/brush_tip_modeler_helpers.cc
index ad7d88f..ebc6b35 100644
--- a/ink/strokes/internal/brush_tip_modeler_helpers.cc
+++ b/ink/strokes/internal/brush_tip_modeler_helpers.cc
@@ -18,6 +18,7 @@
 #include <array>
 #include <cmath>
 #include <cstddef>
+#include <limits>
 #include <optional>
 #include <variant>
 #include <vector>
@@ -499,6 +500,27 @@ struct BrushTipStateModifiers {
   float opacity_multiplier = 1;
 };
 
+// Returns the finite value nearest to `value`, which must not be NaN. Keeping
+// combined modifiers finite ensures that no combination of finite modifiers is
+// undefined, e.g. by multiplying an overflowed product by zero.
+float ClampToFinite(float value) {
+  return std::clamp(value, std::numeric_limits<float>::lowest(),
+                    std::numeric_limits<float>::max());
+}
+
+void MultiplyModifier(float& product, float modifier) {
+  product = ClampToFinite(product * modifier);
+}
+
+void AddModifier(float& sum, float modifier) {
+  sum = ClampToFinite(sum + modifier);
+}
+
+void AddModifier(Angle& sum, float modifier_in_radians) {
+  sum = Angle::Radians(
+      ClampToFinite(sum.ValueInRadians() + modifier_in_radians));
+}
+
 // Adds `modifier` to the appropriate member of `tip_state_modifiers` according
 // to the `target` enum.
 void ApplyModifierToTarget(float modifier, BrushBehavior::Target target,
@@ -508,26 +530,26 @@ void ApplyModifierToTarget(float modifier, BrushBehavior::Target target,
   ABSL_DCHECK(std::isfinite(modifier));
   switch (target) {
     case BrushBehavior::Target::kWidthMultiplier:
-      tip_state_modifiers.width_multiplier *= modifier;
+      MultiplyModifier(tip_state_modifiers.width_multiplier, modifier);
       break;
     case BrushBehavior::Target::kHeightMultiplier:
-      tip_state_modifiers.height_multiplier *= modifier;
+      MultiplyModifier(tip_state_modifiers.height_multiplier, modifier);
       break;
     case BrushBehavior::Target::kSizeMultiplier:
-      tip_state_modifiers.width_multiplier *= modifier;
-      tip_state_modifiers.height_multiplier *= modifier;
+      MultiplyModifier(tip_state_modifiers.width_multiplier, modifier);
+      MultiplyModifier(tip_state_modifiers.height_multiplier, modifier);
       break;
     case BrushBehavior::Target::kSlantOffsetInRadians:
-      tip_state_modifiers.slant_offset += Angle::Radians(modifier);
+      AddModifier(tip_state_modifiers.slant_offset, modifier);
       break;
     case BrushBehavior::Target::kPinchOffset:
-      tip_state_modifiers.pinch_offset += modifier;
+      AddModifier(tip_state_modifiers.pinch_offset, modifier);
       break;
     case BrushBehavior::Target::kRotationOffsetInRadians:
-      tip_state_modifiers.rotation_offset += Angle::Radians(modifier);
+      AddModifier(tip_state_modifiers.rotation_offset, modifier);
       break;
     case BrushBehavior::Target::kCornerRoundingOffset:
-      tip_state_modifiers.corner_rounding_offset += modifier;
+      AddModifier(tip_state_modifiers.corner_rounding_offset, modifier);
       break;
     case BrushBehavior::Target::kPositionOffsetXInMultiplesOfBrushSize:
       tip_state_modifiers.position_offset_in_stroke_units.x +=
@@ -552,16 +574,16 @@ void ApplyModifierToTarget(float modifier, BrushBehavior::Target target,
       }
       break;
     case BrushBehavior::Target::kHueOffsetInRadians:
-      tip_state_modifiers.hue_offset += Angle::Radians(modifier);
+      AddModifier(tip_state_modifiers.hue_offset, modifier);
       break;
     case BrushBehavior::Target::kSaturationMultiplier:
-      tip_state_modifiers.saturation_multiplier *= modifier;
+      MultiplyModifier(tip_state_modifiers.saturation_multiplier, modifier);
       break;
     case BrushBehavior::Target::kLuminosity:
-      tip_state_modifiers.luminosity += modifier;
+      AddModifier(tip_state_modifiers.luminosity, modifier);
       break;
     case BrushBehavior::Target::kOpacityMultiplier:
-      tip_state_modifiers.opacity_multiplier *= modifier;
+      MultiplyModifier(tip_state_modifiers.opacity_multiplier, modifier);
       break;
   }
 }
-- 
2.43.0


From c40bca65330366a76c6e76fb0f0e3a7c16dc37c9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:49:04 +0000
Subject: [PATCH 35/51] fix: keep the inputs when a stroke is given its own
 inputs

---
 ink/strokes/stroke.cc | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/ink/strokes/stroke.cc b/ink/strokes/stroke.cc
index cd6ad7f..666adda 100644
--- a/ink/strokes/stroke.cc
+++ b/ink/strokes/stroke.cc
@@ -125,8 +125,7 @@ absl::Status Stroke::SetBrushEpsilon(float epsilon) {
 }
 
 void Stroke::SetInputs(const StrokeInputBatch& inputs) {
-  inputs_.Clear();
-  ABSL_CHECK_OK(inputs_.Append(inputs));
+  inputs_ = inputs;
   RegenerateShape();
 }
 
-- 
2.43.0


From b04285d1eaea466961689ef2a82346a4b261573a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:01:11 +0000
Subject: [PATCH 36/51] fix: flatten brush tips that are slanted by a quarter
 turn

---
 ink/strokes/internal/brush_tip_shape.cc | 11 +++++++++++
 1 file changed, 11 insertions(+)

diff --git a/ink/strokes/internal/brush_tip_shape.cc b/ink/strokes/internal/brush_tip_shape.cc
index c45f242..2255d0f 100644
--- a/ink/strokes/internal/brush_tip_shape.cc
+++ b/ink/strokes/internal/brush_tip_shape.cc
@@ -124,6 +124,17 @@ SmallArray<Circle, 4> MakeShapeControlCircles(
   // together the two control circles that lie below the x-axis before rotation.
   float x_after_pinch = (1 - tip_state.pinch) * x;
 
+  // A slant of (nearly) a quarter turn flattens the shape onto its x-axis. The
+  // circles would then no longer be in order around the perimeter, so we only
+  // keep the two at either end.
+  if (2 * y * Cos(tip_state.slant) < min_nonzero_radius_and_separation) {
+    float shift = y * Sin(tip_state.slant);
+    return {
+        make_circle({std::max(x - shift, x_after_pinch + shift), 0}),
+        make_circle({std::min(-x - shift, -x_after_pinch + shift), 0}),
+    };
+  }
+
   // If `x_after_pinch` falls below the minimum separatation, the shape should
   // be a rounded-triangle:
   if (2 * x_after_pinch < min_nonzero_radius_and_separation) {
-- 
2.43.0


From a03eeb299c53c2c1c274006e547438278181e5cd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:37:43 +0000
Subject: [PATCH 37/51] fix: do not convert NaN to an integer when
 approximating an empty arc

---
 ink/geometry/internal/circle.cc | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/ink/geometry/internal/circle.cc b/ink/geometry/internal/circle.cc
index 28840e2..626ed4f 100644
--- a/ink/geometry/internal/circle.cc
+++ b/ink/geometry/internal/circle.cc
@@ -41,9 +41,13 @@ void Circle::AppendArcToPolyline(Angle start, Angle arc_angle,
 
   Angle max_step_angle = GetArcAngleForChordHeight(max_chord_height);
 
+  // `max_step_angle` is zero when the chord height is negligible compared to the
+  // radius, in which case this ratio is infinite, or NaN for an empty arc.
+  float step_ratio = std::ceil(std::abs(arc_angle / max_step_angle));
   int32_t steps =
-      std::clamp<float>(std::ceil(std::abs(arc_angle / max_step_angle)), 1,
-                        std::numeric_limits<int16_t>::max());
+      step_ratio > 1
+          ? std::min<float>(step_ratio, std::numeric_limits<int16_t>::max())
+          : 1;
   Angle step_angle = arc_angle / steps;
 
   // We do not call `vector::reserve` because we expect cases with multiple
-- 
2.43.0


From 745b5324e4fbe2d6d6cf9ead853c9e710974d4a5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:41:53 +0000
Subject: [PATCH 38/51] fix: skip repeated points when cleaning up a polyline

---
 ink/geometry/internal/polyline_processing.cc | 16 ++++++++++++++--
 1 file changed, 14 insertions(+), 2 deletions(-)

diff --git a/ink/geometry/internal/polyline_processing.cc b/ink/geometry/internal/polyline_processing.cc
index 0fb87f4..9938179 100644
--- a/ink/geometry/internal/polyline_processing.cc
+++ b/ink/geometry/internal/polyline_processing.cc
@@ -15,6 +15,7 @@
 #include "ink/geometry/internal/polyline_processing.h"
 
 #include <algorithm>
+#include <iterator>
 #include <limits>
 #include <optional>
 #include <utility>
@@ -396,7 +397,17 @@ std::vector<Point> ProcessPolylineForMeshCreation(
     absl::Span<const Point> points, float min_walk_distance,
     float max_connection_distance, float min_connection_ratio,
     float min_trimming_ratio) {
-  PolylineData polyline = CreateNewPolylineData(points);
+  // Repeated points would make segments that cannot be projected onto, and whose
+  // neighbors would appear to intersect each other, so they are skipped here.
+  std::vector<Point> distinct_points;
+  distinct_points.reserve(points.size());
+  std::unique_copy(points.begin(), points.end(),
+                   std::back_inserter(distinct_points));
+  if (distinct_points.size() < 2) {
+    return std::vector<Point>(points.begin(), points.end());
+  }
+
+  PolylineData polyline = CreateNewPolylineData(distinct_points);
 
   polyline.min_walk_distance = min_walk_distance;
   polyline.max_connection_distance = max_connection_distance;
@@ -407,7 +418,8 @@ std::vector<Point> ProcessPolylineForMeshCreation(
                                                            segment_bounds);
   FindFirstAndLastIntersections(rtree, polyline);
   FindBestEndpointConnections(rtree, polyline);
-  return CreateNewPolylineFromPolylineData(polyline, points);
+  return CreateNewPolylineFromPolylineData(
+      polyline, polyline.has_intersection ? distinct_points : points);
 }
 
 }  // namespace ink::geometry_internal
-- 
2.43.0


From 532ee9f828dd02d409731df403697b7238b8a47c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:42:13 +0000
Subject: [PATCH 39/51] fix: order points straight above the start of a convex
 hull by distance

---
 ink/geometry/internal/convex_hull_helper.h | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/ink/geometry/internal/convex_hull_helper.h b/ink/geometry/internal/convex_hull_helper.h
index b6e436f..66db7e6 100644
--- a/ink/geometry/internal/convex_hull_helper.h
+++ b/ink/geometry/internal/convex_hull_helper.h
@@ -127,8 +127,11 @@ std::vector<typename VertexTessellationHelper::VertexType> ConvexHull(
               Vec rhs_vec{GetX(rhs) - GetX(start_point),
                           GetY(rhs) - GetY(start_point)};
               float det = Vec::Determinant(lhs_vec, rhs_vec);
+              // The y-coordinates are never negative, and settle the order of
+              // points that are straight above `start_point`.
               return det > 0 ||
-                     (det == 0 && std::abs(lhs_vec.x) < std::abs(rhs_vec.x));
+                     (det == 0 && std::abs(lhs_vec.x) + lhs_vec.y <
+                                      std::abs(rhs_vec.x) + rhs_vec.y);
             });
 
   // Add the sorted points to the hull, removing any that form concavities.
-- 
2.43.0


From 2a2b257436745c3054d1b7aebfb05290aee029ed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:42:49 +0000
Subject: [PATCH 40/51] fix: keep the extrema when pruning the input of a
 convex hull

---
 ink/geometry/internal/convex_hull_helper.h | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/ink/geometry/internal/convex_hull_helper.h b/ink/geometry/internal/convex_hull_helper.h
index 66db7e6..9a4a1a5 100644
--- a/ink/geometry/internal/convex_hull_helper.h
+++ b/ink/geometry/internal/convex_hull_helper.h
@@ -77,8 +77,10 @@ PruneUsingAkiToussaint(
                           Point{GetX(min_y_point), GetY(min_y_point)},
                           Point{GetX(max_x_point), GetY(max_x_point)}};
 
-  std::vector<VertexType> pruned_points;
-  pruned_points.reserve(points.size());
+  // The extrema are in the triangles that they form, but must not be eliminated.
+  std::vector<VertexType> pruned_points = {min_x_point, max_x_point,
+                                           min_y_point, max_y_point};
+  pruned_points.reserve(points.size() + pruned_points.size());
   for (const auto& p : points) {
     Point test_point{GetX(p), GetY(p)};
     if (!upper_triangle.Contains(test_point) &&
-- 
2.43.0


From dc559bfb6b06e07f79c24acc0eaa432eeeaf9285 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:43:15 +0000
Subject: [PATCH 41/51] fix: order the points of a convex hull in double
 precision

---
 ink/geometry/internal/convex_hull_helper.h | 35 ++++++++++++----------
 1 file changed, 19 insertions(+), 16 deletions(-)

diff --git a/ink/geometry/internal/convex_hull_helper.h b/ink/geometry/internal/convex_hull_helper.h
index 9a4a1a5..a970159 100644
--- a/ink/geometry/internal/convex_hull_helper.h
+++ b/ink/geometry/internal/convex_hull_helper.h
@@ -122,18 +122,25 @@ std::vector<typename VertexTessellationHelper::VertexType> ConvexHull(
   std::copy_if(pruned_points.begin(), pruned_points.end(),
                std::back_inserter(sorted_points),
                [start_point](const VertexType& v) { return v != start_point; });
+  // The determinants are in double precision: in single precision, the rounding
+  // errors of points that are nearly in line would make the order inconsistent.
+  auto determinant = [](const VertexType& a, const VertexType& b,
+                        const VertexType& c, const VertexType& d) {
+    return (double{GetX(b)} - GetX(a)) * (double{GetY(d)} - GetY(c)) -
+           (double{GetY(b)} - GetY(a)) * (double{GetX(d)} - GetX(c));
+  };
   std::sort(sorted_points.begin(), sorted_points.end(),
-            [start_point](const VertexType& lhs, const VertexType& rhs) {
-              Vec lhs_vec{GetX(lhs) - GetX(start_point),
-                          GetY(lhs) - GetY(start_point)};
-              Vec rhs_vec{GetX(rhs) - GetX(start_point),
-                          GetY(rhs) - GetY(start_point)};
-              float det = Vec::Determinant(lhs_vec, rhs_vec);
-              // The y-coordinates are never negative, and settle the order of
-              // points that are straight above `start_point`.
+            [start_point, determinant](const VertexType& lhs,
+                                       const VertexType& rhs) {
+              double det = determinant(start_point, lhs, start_point, rhs);
+              // The y-coordinates are never lower than that of `start_point`,
+              // and settle the order of points that are straight above it.
               return det > 0 ||
-                     (det == 0 && std::abs(lhs_vec.x) + lhs_vec.y <
-                                      std::abs(rhs_vec.x) + rhs_vec.y);
+                     (det == 0 &&
+                      std::abs(double{GetX(lhs)} - GetX(start_point)) +
+                              GetY(lhs) <
+                          std::abs(double{GetX(rhs)} - GetX(start_point)) +
+                              GetY(rhs));
             });
 
   // Add the sorted points to the hull, removing any that form concavities.
@@ -142,12 +149,8 @@ std::vector<typename VertexTessellationHelper::VertexType> ConvexHull(
   hull.reserve(std::min(kHullSizeEstimate, sorted_points.size()));
   hull.push_back(start_point);
   for (const auto& point : sorted_points) {
-    while (
-        hull.size() >= 2 &&
-        Vec::Determinant(Vec{GetX(hull.back()) - GetX(hull[hull.size() - 2]),
-                             GetY(hull.back()) - GetY(hull[hull.size() - 2])},
-                         Vec{GetX(point) - GetX(hull.back()),
-                             GetY(point) - GetY(hull.back())}) <= 0)
+    while (hull.size() >= 2 && determinant(hull[hull.size() - 2], hull.back(),
+                                           hull.back(), point) <= 0)
       hull.pop_back();
     hull.push_back(point);
   }
-- 
2.43.0


From a7cde8ca94cf09a13153c371b5727741a221fee9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:55:30 +0000
Subject: [PATCH 42/51] fix: do not cache the semi-axes of a quad

---
 ink/geometry/quad.cc | 19 +++++++------------
 ink/geometry/quad.h  |  6 ------
 2 files changed, 7 insertions(+), 18 deletions(-)

diff --git a/ink/geometry/quad.cc b/ink/geometry/quad.cc
index b83eb69..42f9d8c 100644
--- a/ink/geometry/quad.cc
+++ b/ink/geometry/quad.cc
@@ -18,7 +18,6 @@
 #include <array>
 #include <cmath>
 #include <cstdlib>
-#include <optional>
 #include <utility>
 
 #include "absl/log/absl_log.h"
@@ -30,16 +29,13 @@
 namespace ink {
 
 std::pair<Vec, Vec> Quad::SemiAxes() const {
-  if (!semi_axes_.has_value()) {
-    const float cos_rotation = Cos(rotation_);
-    const float sin_rotation = Sin(rotation_);
-    Vec axis_1 = Vec{.5f * width_ * cos_rotation, .5f * width_ * sin_rotation};
-    Vec axis_2 =
-        Vec{.5f * height_ * (shear_factor_ * cos_rotation - sin_rotation),
-            .5f * height_ * (shear_factor_ * sin_rotation + cos_rotation)};
-    semi_axes_ = std::make_pair(axis_1, axis_2);
-  }
-  return semi_axes_.value();
+  const float cos_rotation = Cos(rotation_);
+  const float sin_rotation = Sin(rotation_);
+  Vec axis_1 = Vec{.5f * width_ * cos_rotation, .5f * width_ * sin_rotation};
+  Vec axis_2 =
+      Vec{.5f * height_ * (shear_factor_ * cos_rotation - sin_rotation),
+          .5f * height_ * (shear_factor_ * sin_rotation + cos_rotation)};
+  return std::make_pair(axis_1, axis_2);
 }
 
 std::array<Point, 4> Quad::Corners() const {
@@ -94,7 +90,6 @@ void Quad::Join(Point point) {
   center_ = center_ + u_offset * unit_axes.first + v_offset * unit_axes.second;
   width_ = new_width;
   height_ = new_height;
-  semi_axes_.reset();
 }
 
 bool Quad::Contains(Point point) const {
diff --git a/ink/geometry/quad.h b/ink/geometry/quad.h
index 26c9b40..c1e2111 100644
--- a/ink/geometry/quad.h
+++ b/ink/geometry/quad.h
@@ -16,7 +16,6 @@
 #define INK_GEOMETRY_QUAD_H_
 
 #include <array>
-#include <optional>
 #include <utility>
 
 #include "absl/log/absl_check.h"
@@ -207,7 +206,6 @@ class Quad {
   float height_ = 0;
   Angle rotation_ = Angle::Radians(0);
   float shear_factor_ = 0;
-  mutable std::optional<std::pair<Vec, Vec>> semi_axes_;
 };
 
 bool operator==(const Quad& lhs, const Quad& rhs);
@@ -228,28 +226,24 @@ inline void Quad::SetHeight(float height) {
   if (height == height_) {
     return;
   }
-  semi_axes_.reset();
   height_ = height;
 }
 inline void Quad::SetRotation(Angle rotation) {
   if (rotation == rotation_) {
     return;
   }
-  semi_axes_.reset();
   rotation_ = rotation.Normalized();
 }
 inline void Quad::SetShearFactor(float shear_factor) {
   if (shear_factor == shear_factor_) {
     return;
   }
-  semi_axes_.reset();
   shear_factor_ = shear_factor;
 }
 inline void Quad::SetWidth(float width) {
   if (width == width_) {
     return;
   }
-  semi_axes_.reset();
   width_ = width;
   Normalize();
 }
-- 
2.43.0


From 6a50d511fed1840c184ae29c90d38ec89393026c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:17:45 +0000
Subject: [PATCH 43/51] fix: Reject unaligned mesh formats for rendering

---
 .../mesh_specification_data.cc                | 19 +++++++++++++++++++
 .../common_internal/mesh_specification_data.h |  2 ++
 2 files changed, 21 insertions(+)

diff --git a/ink/rendering/skia/common_internal/mesh_specification_data.cc b/ink/rendering/skia/common_internal/mesh_specification_data.cc
index 7e798e9..46c22e9 100644
--- a/ink/rendering/skia/common_internal/mesh_specification_data.cc
+++ b/ink/rendering/skia/common_internal/mesh_specification_data.cc
@@ -406,6 +406,25 @@ GetValidatedStrokeAttributeTypesAndOffsets(
         .offset = attributes[attribute_indices.surface_uv].packed_offset};
   }
 
+  // --------------------------------------------------------------------------
+  // Skia requires 4-byte alignment of the vertex stride and of each attribute.
+  // Since all of the supported types have a size that is a multiple of 4, this
+  // can only be violated because of other attributes in the `mesh_format`.
+  auto is_aligned = [](int offset) { return offset % 4 == 0; };
+  if (!is_aligned(mesh_format.PackedVertexStride()) ||
+      !is_aligned(result.position_and_opacity_shift.offset) ||
+      !is_aligned(result.side_derivative_and_label.offset) ||
+      !is_aligned(result.forward_derivative_and_label.offset) ||
+      (result.hsl_shift.has_value() &&
+       !is_aligned(result.hsl_shift->offset)) ||
+      (result.surface_uv.has_value() &&
+       !is_aligned(result.surface_uv->offset))) {
+    return absl::InvalidArgumentError(absl::StrCat(
+        "The packed vertex stride, and the packed offsets of the attributes "
+        "used for rendering must be multiples of 4. Got `mesh_format`: ",
+        mesh_format));
+  }
+
   return result;
 }
 
diff --git a/ink/rendering/skia/common_internal/mesh_specification_data.h b/ink/rendering/skia/common_internal/mesh_specification_data.h
index 555b55c..92d4e12 100644
--- a/ink/rendering/skia/common_internal/mesh_specification_data.h
+++ b/ink/rendering/skia/common_internal/mesh_specification_data.h
@@ -154,6 +154,8 @@ struct MeshSpecificationData {
   //   * The packed `MeshFormat::AttributeType` must be supported, including the
   //     combination of types for each tuple of named `MeshFormat::Attribute`s
   //     above.
+  //   * The packed vertex stride, and the packed offset of each attribute that
+  //     is used for rendering, must be multiples of 4 bytes.
   //
   // The packed representation of the `MeshFormat` used by `InProgressStroke`
   // will always be supported.
-- 
2.43.0


From 608b224e302624482e8d1b268e22946cc9f06853 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:22:06 +0000
Subject: [PATCH 44/51] fix: Draw each mesh with its own unpacking parameters

---
 ink/rendering/skia/native/skia_renderer.cc | 59 +++++++++++-----------
 1 file changed, 29 insertions(+), 30 deletions(-)

diff --git a/ink/rendering/skia/native/skia_renderer.cc b/ink/rendering/skia/native/skia_renderer.cc
index cb0337b..e891687 100644
--- a/ink/rendering/skia/native/skia_renderer.cc
+++ b/ink/rendering/skia/native/skia_renderer.cc
@@ -217,40 +217,39 @@ absl::StatusOr<SkiaRenderer::Drawable> SkiaRenderer::CreateDrawable(
         specification_cache_.GetForStroke(stroke_shape, coat_index);
     if (!specification.ok()) return specification.status();
 
-    absl::InlinedVector<MeshDrawable::Partition, 1> partitions;
-    partitions.reserve(meshes.size());
+    // The meshes of a render group share a format, but each one may have its own
+    // attribute unpacking parameters, e.g. if the stroke's shape was made from
+    // deserialized meshes. Since these are passed to the shader as uniforms,
+    // each mesh needs its own drawable.
     for (const Mesh& mesh : meshes) {
       absl::Span<const std::byte> vertex_data = mesh.RawVertexData();
       absl::Span<const std::byte> index_data = mesh.RawIndexData();
-      partitions.push_back({
-          .vertex_buffer = SkMeshes::MakeVertexBuffer(
-              context, vertex_data.data(), vertex_data.size()),
-          .index_buffer = SkMeshes::MakeIndexBuffer(context, index_data.data(),
-                                                    index_data.size()),
-          .vertex_count = static_cast<int32_t>(mesh.VertexCount()),
-          .index_count = static_cast<int32_t>(3 * mesh.TriangleCount()),
-          .bounds = ToSkiaRect(*mesh.Bounds().AsRect()),
-      });
+      auto get_attribute_unpacking_transform =
+          [&mesh](int attribute_index) -> const MeshAttributeCodingParams& {
+        return mesh.VertexAttributeUnpackingParams(attribute_index);
+      };
+      MeshUniformData uniform_data(**specification, mesh.Format().Attributes(),
+                                   get_attribute_unpacking_transform);
+      absl::StatusOr<MeshDrawable> mesh_drawable = MeshDrawable::Create(
+          *specification, shader_cache_.GetBlenderForPaint(brush_paint),
+          *shader,
+          {{
+              .vertex_buffer = SkMeshes::MakeVertexBuffer(
+                  context, vertex_data.data(), vertex_data.size()),
+              .index_buffer = SkMeshes::MakeIndexBuffer(
+                  context, index_data.data(), index_data.size()),
+              .vertex_count = static_cast<int32_t>(mesh.VertexCount()),
+              .index_count = static_cast<int32_t>(3 * mesh.TriangleCount()),
+              .bounds = ToSkiaRect(*mesh.Bounds().AsRect()),
+          }},
+          std::move(uniform_data));
+      if (!mesh_drawable.ok()) return mesh_drawable.status();
+
+      mesh_drawable->SetBrushColor(brush.GetColor());
+      mesh_drawable->SetTextureMapping(
+          GetBrushPaintTextureMapping(brush_paint));
+      drawables.push_back(*std::move(mesh_drawable));
     }
-
-    const Mesh& first_mesh = meshes.front();
-    auto get_attribute_unpacking_transform =
-        [&first_mesh](int attribute_index) -> const MeshAttributeCodingParams& {
-      return first_mesh.VertexAttributeUnpackingParams(attribute_index);
-    };
-
-    MeshUniformData uniform_data(**specification,
-                                 first_mesh.Format().Attributes(),
-                                 get_attribute_unpacking_transform);
-    absl::StatusOr<MeshDrawable> mesh_drawable = MeshDrawable::Create(
-        *std::move(specification),
-        shader_cache_.GetBlenderForPaint(brush_paint), *std::move(shader),
-        std::move(partitions), std::move(uniform_data));
-    if (!mesh_drawable.ok()) return mesh_drawable.status();
-
-    mesh_drawable->SetBrushColor(brush.GetColor());
-    mesh_drawable->SetTextureMapping(GetBrushPaintTextureMapping(brush_paint));
-    drawables.push_back(*std::move(mesh_drawable));
   }
 
   return Drawable(object_to_canvas, std::move(drawables));
-- 
2.43.0


From 99767a186932b4102a82006df544222c90ab0617 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:22:36 +0000
Subject: [PATCH 45/51] fix: Skip coats without triangles when drawing a stroke
 in progress

---
 ink/rendering/skia/native/skia_renderer.cc | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/ink/rendering/skia/native/skia_renderer.cc b/ink/rendering/skia/native/skia_renderer.cc
index e891687..95515d1 100644
--- a/ink/rendering/skia/native/skia_renderer.cc
+++ b/ink/rendering/skia/native/skia_renderer.cc
@@ -139,6 +139,11 @@ absl::StatusOr<SkiaRenderer::Drawable> SkiaRenderer::CreateDrawable(
       continue;
     }
 
+    const MutableMesh& mesh = stroke.GetMesh(coat_index);
+    // Skia does not support meshes without triangles, and a stroke may not have
+    // any yet even if its bounds are not empty.
+    if (mesh.TriangleCount() == 0) continue;
+
     const BrushPaint& brush_paint = brush->GetCoats()[coat_index].paint;
     absl::StatusOr<sk_sp<SkShader>> shader = shader_cache_.GetShaderForPaint(
         brush_paint, brush->GetSize(), stroke.GetInputs());
@@ -148,7 +153,6 @@ absl::StatusOr<SkiaRenderer::Drawable> SkiaRenderer::CreateDrawable(
         specification_cache_.GetFor(stroke);
     if (!specification.ok()) return specification.status();
 
-    const MutableMesh& mesh = stroke.GetMesh(coat_index);
     if (mesh.VertexCount() >= std::numeric_limits<uint16_t>::max()) {
       return absl::UnimplementedError(
           "Strokes requiring at least 2^16 indices are not supported yet.");
-- 
2.43.0


From abd8ecf7b9dffbc993d05e91677ac915f0038ce5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:24:42 +0000
Subject: [PATCH 46/51] fix: Keep antialiasing finite for vertices without
 extent

---
 .../skia/common_internal/sksl_vertex_shader_helper_functions.h | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/ink/rendering/skia/common_internal/sksl_vertex_shader_helper_functions.h b/ink/rendering/skia/common_internal/sksl_vertex_shader_helper_functions.h
index c33f09a..05ef0e2 100644
--- a/ink/rendering/skia/common_internal/sksl_vertex_shader_helper_functions.h
+++ b/ink/rendering/skia/common_internal/sksl_vertex_shader_helper_functions.h
@@ -221,7 +221,8 @@ inline constexpr absl::string_view kSkSLVertexShaderHelpers =
 
       float pixelOutsetTarget =
           targetAntialiasingPixelOutset(pixelsPerDimension.x);
-      float2 outsetTargets = float2(pixelOutsetTarget) / pixelsPerDimension;
+      float2 outsetTargets = float2(pixelOutsetTarget) /
+                             max(float2(0.000001), pixelsPerDimension);
       float2 outsets = min(outsetTargets, decodeMargins(labels));
       outsets.x = mix(outsetTargets.x, outsets.x,
                       saturate(4.0 * pixelsPerDimension.x - 1.0));
-- 
2.43.0


From 2b418f9a3733371a45089aa546c382ecb12fa0d8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:27:47 +0000
Subject: [PATCH 47/51] fix: Validate the color format and color space of
 bitmaps

---
 ink/rendering/bitmap.cc | 29 +++++++++++++++++++++++++++++
 1 file changed, 29 insertions(+)

diff --git a/ink/rendering/bitmap.cc b/ink/rendering/bitmap.cc
index bfec32f..daed230 100644
--- a/ink/rendering/bitmap.cc
+++ b/ink/rendering/bitmap.cc
@@ -38,6 +38,25 @@ bool IsValidPixelFormat(Bitmap::PixelFormat format) {
   return false;
 }
 
+bool IsValidColorFormat(Color::Format format) {
+  switch (format) {
+    case Color::Format::kLinear:
+    case Color::Format::kGammaEncoded:
+    case Color::Format::kPremultipliedAlpha:
+      return true;
+  }
+  return false;
+}
+
+bool IsValidColorSpace(ColorSpace color_space) {
+  switch (color_space) {
+    case ColorSpace::kSrgb:
+    case ColorSpace::kDisplayP3:
+      return true;
+  }
+  return false;
+}
+
 }  // namespace
 
 absl::Status ValidateBitmap(const Bitmap& bitmap) {
@@ -54,6 +73,16 @@ absl::Status ValidateBitmap(const Bitmap& bitmap) {
         absl::StrCat("`Bitmap::pixel_format` holds non-enumerator value ",
                      static_cast<int>(bitmap.pixel_format())));
   }
+  if (!IsValidColorFormat(bitmap.color_format())) {
+    return absl::InvalidArgumentError(
+        absl::StrCat("`Bitmap::color_format` holds non-enumerator value ",
+                     static_cast<int>(bitmap.color_format())));
+  }
+  if (!IsValidColorSpace(bitmap.color_space())) {
+    return absl::InvalidArgumentError(
+        absl::StrCat("`Bitmap::color_space` holds non-enumerator value ",
+                     static_cast<int>(bitmap.color_space())));
+  }
   size_t expected_data_size = static_cast<size_t>(bitmap.width()) *
                               static_cast<size_t>(bitmap.height()) *
                               PixelFormatBytesPerPixel(bitmap.pixel_format());
-- 
2.43.0


From 2e8f3e355370020470690ed9609b225394562ad1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:48:36 +0000
Subject: [PATCH 48/51] fix: Initialize the attribute offsets given to Java

---
 .../skia/common_internal/jni/canvas_mesh_renderer_jni.cc         | 1 +
 1 file changed, 1 insertion(+)

diff --git a/ink/rendering/skia/common_internal/jni/canvas_mesh_renderer_jni.cc b/ink/rendering/skia/common_internal/jni/canvas_mesh_renderer_jni.cc
index 63e4162..9aca02d 100644
--- a/ink/rendering/skia/common_internal/jni/canvas_mesh_renderer_jni.cc
+++ b/ink/rendering/skia/common_internal/jni/canvas_mesh_renderer_jni.cc
@@ -67,6 +67,7 @@ JNI_METHOD(rendering_android_canvas_internal, CanvasMeshRenderer, void,
   std::array<int, MeshSpecificationData::kMaxAttributes> attribute_types;
   std::array<int, MeshSpecificationData::kMaxAttributes> attribute_offsets;
   attribute_types.fill(-1);
+  attribute_offsets.fill(-1);
   for (int i = 0; i < attributes.Size(); i++) {
     attribute_types[i] = static_cast<int>(attributes[i].type);
     attribute_offsets[i] = attributes[i].offset;
-- 
2.43.0


From 9664ea23246623f5d9eed5a43e51bf2be50d2f72 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:51:44 +0000
Subject: [PATCH 49/51] fix: Free the texture layer that Java is told is not
 valid

---
 ink/brush/internal/jni/brush_paint_jni.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ink/brush/internal/jni/brush_paint_jni.cc b/ink/brush/internal/jni/brush_paint_jni.cc
index 89ad8fd..53d4f5f 100644
--- a/ink/brush/internal/jni/brush_paint_jni.cc
+++ b/ink/brush/internal/jni/brush_paint_jni.cc
@@ -124,7 +124,7 @@ JNI_METHOD_INNER(brush, BrushPaint, TextureLayer, jlong,
 
   if (!status.ok()) {
     ink::jni::ThrowExceptionFromStatus(env, status);
-    // delete texture_layer;
+    delete texture_layer;
     return -1;
   }
   return reinterpret_cast<jlong>(texture_layer);
-- 
2.43.0


From c13eefd8e9d4f22223bc83f973faed0973aaeb96 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:06:30 +0000
Subject: [PATCH 50/51] fix: Do not assume good tangents between far shapes
 that seem to contain one another

---
 ink/strokes/internal/brush_tip_extrusion.cc | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/ink/strokes/internal/brush_tip_extrusion.cc b/ink/strokes/internal/brush_tip_extrusion.cc
index e1c5c29..5d30e9f 100644
--- a/ink/strokes/internal/brush_tip_extrusion.cc
+++ b/ink/strokes/internal/brush_tip_extrusion.cc
@@ -166,7 +166,12 @@ BrushTipExtrusion::TangentQuality BrushTipExtrusion::EvaluateTangentQuality(
     float travel_threshold) {
   if ((Distance(first.GetState().position, second.GetState().position)) >
           travel_threshold &&
-      StatesHaveEqualShapeProperties(first.GetState(), second.GetState())) {
+      StatesHaveEqualShapeProperties(first.GetState(), second.GetState()) &&
+      // Shapes that only differ by a translation do not contain one another,
+      // but they may seem to because of limited floating-point precision far
+      // away from the origin.
+      !first.GetShape().Contains(second.GetShape()) &&
+      !second.GetShape().Contains(first.GetShape())) {
     return TangentQuality::kGoodTangents;
   }
 
-- 
2.43.0


From 6963ab5e73e8968be88c7fabed148c0a4a4794ab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:53:11 +0000
Subject: [PATCH 51/51] fix: go all the way around a stadium at the ends of a
 stroke along its axis

---
 ink/strokes/internal/brush_tip_shape.cc | 32 +++++++++++++++++++++----
 1 file changed, 27 insertions(+), 5 deletions(-)

diff --git a/ink/strokes/internal/brush_tip_shape.cc b/ink/strokes/internal/brush_tip_shape.cc
index 2255d0f..01efcdb 100644
--- a/ink/strokes/internal/brush_tip_shape.cc
+++ b/ink/strokes/internal/brush_tip_shape.cc
@@ -728,10 +728,22 @@ void BrushTipShape::AppendStartcapExtrusionPoints(
     float max_chord_height, ExtrusionPoints& extrusion_points) {
   TangentCircleIndices tangent_indices = GetTangentCircleIndices(first, second);
 
-  absl::InlinedVector<Circle, 5> circles;
+  Vec forward = GetForwardDirectionWithFallback(first, second);
+
+  absl::InlinedVector<Circle, 7> circles;
   circles.push_back(second.circles_[tangent_indices.right.second]);
   int first_index = tangent_indices.right.first;
   circles.push_back(first.circles_[first_index]);
+  if (first_index == tangent_indices.left.first) {
+    // Both tangents can start from the same circle even though it is not the
+    // rearmost one, e.g. when a stadium that moves along its axis is followed
+    // by a smaller shape. In that case the cap goes all the way around `first`.
+    auto [rear_left, rear_right] = GetRearIndices(first, forward);
+    if (first_index != rear_left && first_index != rear_right) {
+      first_index = first.GetNextPerimeterIndexCw(first_index);
+      circles.push_back(first.circles_[first_index]);
+    }
+  }
   while (first_index != tangent_indices.left.first) {
     first_index = first.GetNextPerimeterIndexCw(first_index);
     circles.push_back(first.circles_[first_index]);
@@ -746,7 +758,6 @@ void BrushTipShape::AppendStartcapExtrusionPoints(
                                AddCircularTangentIntersections::kNo,
                                extrusion_points.left);
 
-  Vec forward = GetForwardDirectionWithFallback(first, second);
   MoveNewRightPointsOutOfLeft(forward, first.Center(),
                               extrusion_points.left.size() - size_before_append,
                               extrusion_points);
@@ -758,10 +769,23 @@ void BrushTipShape::AppendEndcapExtrusionPoints(
   TangentCircleIndices tangent_indices =
       GetTangentCircleIndices(second_to_last, last);
 
-  absl::InlinedVector<Circle, 5> circles;
+  Vec forward = GetForwardDirectionWithFallback(second_to_last, last);
+
+  absl::InlinedVector<Circle, 7> circles;
   circles.push_back(second_to_last.circles_[tangent_indices.left.first]);
   int last_index = tangent_indices.left.second;
   circles.push_back(last.circles_[last_index]);
+  if (last_index == tangent_indices.right.second) {
+    // Both tangents can end at the same circle even though it is not the
+    // foremost one, e.g. when a stadium moves along its axis, such that the
+    // tangents touch both of its circles, and the closest one is chosen. In
+    // that case the cap goes all the way around `last`.
+    auto [front_left, front_right] = GetRearIndices(last, -forward);
+    if (last_index != front_left && last_index != front_right) {
+      last_index = last.GetNextPerimeterIndexCw(last_index);
+      circles.push_back(last.circles_[last_index]);
+    }
+  }
   while (last_index != tangent_indices.right.second) {
     last_index = last.GetNextPerimeterIndexCw(last_index);
     circles.push_back(last.circles_[last_index]);
@@ -776,8 +800,6 @@ void BrushTipShape::AppendEndcapExtrusionPoints(
                                AddCircularTangentIntersections::kNo,
                                extrusion_points.left);
 
-  Vec forward = GetForwardDirectionWithFallback(second_to_last, last);
-
   int64_t boundary_index =
       static_cast<int64_t>(extrusion_points.left.size()) - 1;
   while (boundary_index >= size_before_append &&
-- 
2.43.0

