From 8c1415b37b82111b364a043dba2dcd58995af45e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 01:01:46 +0000
Subject: [PATCH 01/83] fix: reject numbers that are not separated by
 whitespace

---
 src/util/string_utils.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/util/string_utils.cpp b/src/util/string_utils.cpp
index aac7638..8a9eab5 100644
--- a/src/util/string_utils.cpp
+++ b/src/util/string_utils.cpp
@@ -73,7 +73,8 @@ template <typename T> std::vector<T> explode_string(std::string data)
     T i;
     while (!inBuf.eof()) {
         inBuf >> i;
-        if (!inBuf.fail()) {
+        // Values have to be delimited by whitespace
+        if (!inBuf.fail() && (inBuf.eof() || isspace(inBuf.peek()))) {
             out.push_back(i);
         } else {
             std::stringstream msg;
-- 
2.43.0


From 316f0e38f5da66e906cb41094cecd25cb8cfa1b6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 01:01:46 +0000
Subject: [PATCH 02/83] fix: keep the digit before a brace and reject reversed
 braces

---
 src/util/string_utils.cpp | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/util/string_utils.cpp b/src/util/string_utils.cpp
index 8a9eab5..9a11fc2 100644
--- a/src/util/string_utils.cpp
+++ b/src/util/string_utils.cpp
@@ -130,6 +130,9 @@ std::vector<std::vector<int>> explode_braces(std::string data)
         }
         if (c == '}') {
             brace_depth--;
+            if (brace_depth < 0) {
+                break;
+            }
             continue;
         }
     }
@@ -147,7 +150,7 @@ std::vector<std::vector<int>> explode_braces(std::string data)
         pos_stp = data.find('}', pos_stt);
         if (pos_stt - pos > 0) {
             std::vector<int> naked_ints =
-                explode_string<int>(data.substr(pos, pos_stt - pos - 1));
+                explode_string<int>(data.substr(pos, pos_stt - pos));
             if (naked_ints.size() > 0) {
                 for (const auto &v : naked_ints) {
                     out.push_back(std::vector<int>(1, v));
-- 
2.43.0


From 95ba9ae2998b56c33e4500a1a17de5de988ecb7f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 01:05:51 +0000
Subject: [PATCH 03/83] fix: do not read past the exponential table at its
 upper end

---
 src/core/exponential.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/core/exponential.hpp b/src/core/exponential.hpp
index 25db6ad..7d48fee 100644
--- a/src/core/exponential.hpp
+++ b/src/core/exponential.hpp
@@ -73,7 +73,7 @@ public:
                       << std::endl;
             return std::exp(v);
         }
-        int i = (v - min_) * rspace_;
+        int i = std::min((int)((v - min_) * rspace_), N - 1);
         v -= space_ * i + min_;
         return d_[i] + (d_[i + 1] - d_[i]) * v * rspace_;
     }
-- 
2.43.0


From eb5f1086fbb1ff8d93024efa010800c7a31fbdf5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 01:06:01 +0000
Subject: [PATCH 04/83] fix: keep random draws strictly below their upper bound

---
 src/util/rng_lcg.hpp | 11 ++++++++---
 1 file changed, 8 insertions(+), 3 deletions(-)

diff --git a/src/util/rng_lcg.hpp b/src/util/rng_lcg.hpp
index cd5a088..852ba7c 100644
--- a/src/util/rng_lcg.hpp
+++ b/src/util/rng_lcg.hpp
@@ -16,9 +16,12 @@
 
 #pragma once
 
+#include <algorithm>
 #include <cassert>
+#include <cmath>
 #include <cstdint>
 #include <iostream>
+#include <limits>
 #include <random>
 
 #include "util/force_inline.hpp"
@@ -61,7 +64,9 @@ public:
      */
     real_t random()
     {
-        return float_scale_ * (*this)();
+        // The largest integers round up to unity when converted
+        return std::min<real_t>(float_scale_ * (*this)(),
+                        1.0 - 0.5 * std::numeric_limits<real_t>::epsilon());
     }
 
     /**
@@ -72,7 +77,7 @@ public:
     {
         assert(ubound > 0.0);
 
-        real_t v = float_scale_ * (*this)();
+        real_t v = this->random();
         return v * ubound;
     }
 
@@ -86,7 +91,7 @@ public:
 
         real_t v = this->random();
         v        = lbound + (ubound - lbound) * v;
-        return v;
+        return v < ubound ? v : std::nextafter(ubound, lbound);
     }
 
     /**
-- 
2.43.0


From b1b78dc8384d3a08a407edb2987f4b1b15d4cc99 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 01:06:01 +0000
Subject: [PATCH 05/83] fix: never sample an index with zero probability or
 past the end

---
 src/util/rng_lcg.hpp | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/src/util/rng_lcg.hpp b/src/util/rng_lcg.hpp
index 852ba7c..9372a96 100644
--- a/src/util/rng_lcg.hpp
+++ b/src/util/rng_lcg.hpp
@@ -66,7 +66,7 @@ public:
     {
         // The largest integers round up to unity when converted
         return std::min<real_t>(float_scale_ * (*this)(),
-                        1.0 - 0.5 * std::numeric_limits<real_t>::epsilon());
+                                1.0 - 0.5 * std::numeric_limits<real_t>::epsilon());
     }
 
     /**
@@ -120,8 +120,12 @@ public:
     {
         assert(fp_equiv_ulp(cdf.back(), 1.0));
         real_t v = this->random();
-        return std::distance(cdf.begin(),
-                             std::lower_bound(cdf.begin(), cdf.end(), v));
+        auto it  = std::upper_bound(cdf.begin(), cdf.end(), v);
+        if (it == cdf.end()) {
+            // The last entry can be slightly below unity due to round-off
+            it = std::lower_bound(cdf.begin(), cdf.end(), cdf.back());
+        }
+        return std::distance(cdf.begin(), it);
     }
 
     /**
-- 
2.43.0


From c2d1c82eaf9f642c4eecf4d9f8ad751c3ece5ec6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 01:10:41 +0000
Subject: [PATCH 06/83] fix: reverse all three components of a direction in
 every octant

---
 src/core/angular_quadrature.hpp | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/core/angular_quadrature.hpp b/src/core/angular_quadrature.hpp
index deab430..fb33937 100644
--- a/src/core/angular_quadrature.hpp
+++ b/src/core/angular_quadrature.hpp
@@ -161,7 +161,10 @@ public:
         if (dim == 2) {
             return (iang + ndir_oct_ * 2) % (ndir_oct_ * 4);
         } else {
-            return (iang + ndir_oct_ * 6) % (ndir_oct_ * 8);
+            return this->reflect(iang + ndir_oct_ * ((iang / ndir_oct_) % 4 < 2
+                                                         ? 2
+                                                         : -2),
+                                 Normal::Z_NORM);
         }
         return 0;
     }
-- 
2.43.0


From 40867c6c440d411003b36f6aa23f3e65454ba16b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 01:10:41 +0000
Subject: [PATCH 07/83] fix: reject level-symmetric orders below two

---
 src/core/level_symmetric.hpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/core/level_symmetric.hpp b/src/core/level_symmetric.hpp
index c81404a..baa2688 100644
--- a/src/core/level_symmetric.hpp
+++ b/src/core/level_symmetric.hpp
@@ -59,6 +59,9 @@ std::vector<Angle> GenSn(int order)
     if (order > 16) {
         throw EXCEPT("Max supported Sn quadrature order is 16.");
     }
+    if (order < 2) {
+        throw EXCEPT("Min supported Sn quadrature order is 2.");
+    }
 
     // n is the number of base cosines to use
     const int n = order / 2;
-- 
2.43.0


From 8542fe56517ae63268798760439e34360e91f88f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 01:10:41 +0000
Subject: [PATCH 08/83] fix: add the missing weight map of the S12 quadrature

---
 src/core/level_symmetric.hpp | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/core/level_symmetric.hpp b/src/core/level_symmetric.hpp
index baa2688..cca3968 100644
--- a/src/core/level_symmetric.hpp
+++ b/src/core/level_symmetric.hpp
@@ -41,12 +41,14 @@ real_t w_unique[] = {
 int w_offset[] = {0, 1, 2, 4, 7, 11, 16, 23};
 
 int w_map[] = {1, 1, 1, 1, 1, 2, 2, 1, 2, 1, 1, 2, 2, 2, 3, 2, 1, 2, 2, 1,
-               1, 2, 2, 3, 4, 3, 2, 4, 4, 2, 1, 2, 3, 2, 1, 1, 2, 2, 3, 5,
+               1, 2, 2, 3, 4, 3, 2, 4, 4, 2, 1, 2, 3, 2, 1,
+               1, 2, 2, 3, 4, 3, 3, 5, 5, 3, 2, 4, 5, 4, 2, 1, 2, 3, 3, 2, 1,
+               1, 2, 2, 3, 5,
                3, 4, 6, 6, 4, 3, 6, 7, 6, 3, 2, 5, 6, 6, 5, 2, 1, 2, 3, 4,
                3, 2, 1, 1, 2, 2, 3, 5, 3, 4, 6, 6, 4, 4, 7, 8, 7, 4, 3, 6,
                8, 8, 6, 3, 2, 5, 6, 7, 6, 5, 2, 1, 2, 3, 4, 4, 3, 2, 1};
 
-int w_map_offset[] = {0, 1, 4, 10, 20, 35, 63};
+int w_map_offset[] = {0, 1, 4, 10, 20, 35, 56, 84};
 }
 
 // Produce a vector of angles matching the level-symmetric quadrature of order
-- 
2.43.0


From 6f40b1a5a2b62afdd33f804be3b3bd2c129b2af7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 01:10:41 +0000
Subject: [PATCH 09/83] fix: reject stored quadratures with missing polar or
 azimuthal angles

---
 src/core/angular_quadrature.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/core/angular_quadrature.cpp b/src/core/angular_quadrature.cpp
index 162151b..e23623f 100644
--- a/src/core/angular_quadrature.cpp
+++ b/src/core/angular_quadrature.cpp
@@ -132,7 +132,8 @@ AngularQuadrature::AngularQuadrature(const H5Node &input)
     input.read("ang_quad/n_polar", n_polar_);
 
     if ((ox.size() != oy.size()) || (ox.size() != oz.size()) ||
-        (ox.size() != weights.size())) {
+        (ox.size() != weights.size()) || (ox.size() != alpha.size()) ||
+        (ox.size() != theta.size())) {
         throw EXCEPT("Incompatible data sizes");
     }
 
-- 
2.43.0


From 2220b60813a33899a577d202a3d634bd4ad85cd2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 01:13:15 +0000
Subject: [PATCH 10/83] fix: copy the values of a boundary condition

---
 src/core/boundary_condition.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/core/boundary_condition.cpp b/src/core/boundary_condition.cpp
index 5d0ad33..5eb6eef 100644
--- a/src/core/boundary_condition.cpp
+++ b/src/core/boundary_condition.cpp
@@ -81,6 +81,7 @@ BoundaryCondition::BoundaryCondition(const BoundaryCondition &rhs)
     : BoundaryCondition(rhs.n_group_, rhs.ang_quad_, rhs.bc_, rhs.size_,
             (rhs.factor_==2.0?2:3))
 {
+    data_ = rhs.data_;
     return;
 }
 
-- 
2.43.0


From 4b5d84e859e96ce5a4c8071dfcacf2dffba537cb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 01:13:15 +0000
Subject: [PATCH 11/83] fix: update the remaining faces after a face without
 values

---
 src/core/boundary_condition.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/core/boundary_condition.cpp b/src/core/boundary_condition.cpp
index 5eb6eef..d41121b 100644
--- a/src/core/boundary_condition.cpp
+++ b/src/core/boundary_condition.cpp
@@ -162,7 +162,7 @@ void BoundaryCondition::update(int group, int angle,
         int size    = size_[angle][(int)n];
         int iang_in = ang_quad_.reflect(angle, n);
         if (size == 0) {
-            break;
+            continue;
         }
         assert(size == out.size_[iang_in][(int)n]);
         assert(iang_in < n_angle_);
-- 
2.43.0


From eeaf3c8e1f288198ebfb3aa6d523f77dc3a8b92c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 01:19:56 +0000
Subject: [PATCH 12/83] fix: run x-normal mesh lines over the full mesh height

---
 src/core/core_mesh.cpp | 2 +-
 src/core/mesh.cpp      | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/core/core_mesh.cpp b/src/core/core_mesh.cpp
index 62d65b6..b96a5e0 100644
--- a/src/core/core_mesh.cpp
+++ b/src/core/core_mesh.cpp
@@ -122,7 +122,7 @@ CoreMesh::CoreMesh(const pugi::xml_node &input)
 
     // Form lines for internal pin boundaries and domain bounding box
     for (auto xi = x_vec_.cbegin() + 1; xi != x_vec_.cend() - 1; ++xi) {
-        lines_.push_back(Line(Point2(*xi, 0.0), Point2(*xi, hx_)));
+        lines_.push_back(Line(Point2(*xi, 0.0), Point2(*xi, hy_)));
     }
     for (auto yi = y_vec_.cbegin() + 1; yi != y_vec_.cend() - 1; ++yi) {
         lines_.push_back(Line(Point2(0.0, *yi), Point2(hx_, *yi)));
diff --git a/src/core/mesh.cpp b/src/core/mesh.cpp
index 0dcfb42..2f19c6d 100644
--- a/src/core/mesh.cpp
+++ b/src/core/mesh.cpp
@@ -45,7 +45,7 @@ Mesh::Mesh(size_t n_reg, size_t n_xsreg, const VecF &hx, const VecF &hy,
 
     hx_ = x_vec_.back();
     for (auto xi = x_vec_.cbegin() + 1; xi != x_vec_.cend() - 1; ++xi) {
-        lines_.push_back(Line(Point2(*xi, 0.0), Point2(*xi, hx_)));
+        lines_.push_back(Line(Point2(*xi, 0.0), Point2(*xi, y_vec_.back())));
     }
     hy_ = y_vec_.back();
     for (auto yi = y_vec_.cbegin() + 1; yi != y_vec_.cend() - 1; ++yi) {
-- 
2.43.0


From 6716b7e39cd1d4a6f0c43ccbb4f5f86b57fcf3cf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 01:19:56 +0000
Subject: [PATCH 13/83] fix: report all domain faces at an edge or corner

---
 src/core/mesh.hpp | 16 ++++++++--------
 1 file changed, 8 insertions(+), 8 deletions(-)

diff --git a/src/core/mesh.hpp b/src/core/mesh.hpp
index 0d8437f..2f89d42 100644
--- a/src/core/mesh.hpp
+++ b/src/core/mesh.hpp
@@ -542,16 +542,16 @@ public:
             {Surface::INTERNAL, Surface::INTERNAL, Surface::INTERNAL}};
         if ((p.x < REAL_FUZZ) && (dir.ox < 0.0)) {
             surf[0] = Surface::WEST;
-        } else if ((p.y < REAL_FUZZ) && (dir.oy < 0.0)) {
-            surf[0] = Surface::SOUTH;
-        }
-        if ((p.z < REAL_FUZZ) && (dir.oz < 0.0)) {
-            surf[1] = Surface::BOTTOM;
         } else if ((p.x / hx_ > 1.0 - REAL_FUZZ) && (dir.ox > 0.0)) {
-            surf[1] = Surface::EAST;
+            surf[0] = Surface::EAST;
         }
-        if ((p.y / hy_ > 1.0 - REAL_FUZZ) && (dir.oy > 0.0)) {
-            surf[2] = Surface::NORTH;
+        if ((p.y < REAL_FUZZ) && (dir.oy < 0.0)) {
+            surf[1] = Surface::SOUTH;
+        } else if ((p.y / hy_ > 1.0 - REAL_FUZZ) && (dir.oy > 0.0)) {
+            surf[1] = Surface::NORTH;
+        }
+        if ((p.z < REAL_FUZZ) && (dir.oz < 0.0)) {
+            surf[2] = Surface::BOTTOM;
         } else if ((p.z / hz_ > 1.0 - REAL_FUZZ) && (dir.oz > 0.0)) {
             surf[2] = Surface::TOP;
         }
-- 
2.43.0


From bb9b25e0715f29bea6acad955ac6740594217690 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 01:20:33 +0000
Subject: [PATCH 14/83] fix: locate points on the lower domain boundary

---
 src/core/mesh.cpp | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/src/core/mesh.cpp b/src/core/mesh.cpp
index 2f19c6d..456c453 100644
--- a/src/core/mesh.cpp
+++ b/src/core/mesh.cpp
@@ -361,6 +361,10 @@ int Mesh::coarse_cell_point(Point2 p) const
                       std::lower_bound(y_vec_.begin(), y_vec_.end(), p.y)) -
         1;
 
+    // The lower domain boundary belongs to the first cells
+    ix = (p.x == x_vec_.front()) ? 0 : ix;
+    iy = (p.y == y_vec_.front()) ? 0 : iy;
+
     return this->coarse_cell(Position(ix, iy, 0));
 }
 
@@ -383,6 +387,11 @@ int Mesh::coarse_cell_point(Point3 p) const
                       std::lower_bound(z_vec_.begin(), z_vec_.end(), p.z)) -
         1;
 
+    // The lower domain boundary belongs to the first cells
+    ix = (p.x == x_vec_.front()) ? 0 : ix;
+    iy = (p.y == y_vec_.front()) ? 0 : iy;
+    iz = (p.z == z_vec_.front()) ? 0 : iz;
+
     /// \todo add z support
     return this->coarse_cell(Position(ix, iy, iz));
 }
-- 
2.43.0


From 8e46bd66752e8f4fddbc4a7e808dbe5c8a06ad2f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 01:24:52 +0000
Subject: [PATCH 15/83] fix: find the region of points on the lower pin edges

---
 src/core/pin_mesh_rect.cpp | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/src/core/pin_mesh_rect.cpp b/src/core/pin_mesh_rect.cpp
index 8842e9e..69cf695 100644
--- a/src/core/pin_mesh_rect.cpp
+++ b/src/core/pin_mesh_rect.cpp
@@ -155,9 +155,10 @@ int PinMesh_Rect::find_reg(Point2 p) const
         hx_.begin(), std::lower_bound(hx_.cbegin(), hx_.cend(), p.x));
     int iy = std::distance(
         hy_.begin(), std::lower_bound(hy_.cbegin(), hy_.cend(), p.y));
-    ix--;
-    iy--;
-    
+    // The lower edges of the pin belong to the first row and column
+    ix = std::max(0, ix - 1);
+    iy = std::max(0, iy - 1);
+
     int ireg = nx_ * iy + ix ;
 
     assert( (ireg >= 0) && (ireg < n_reg_));
-- 
2.43.0


From 94ef79837467115e5ebadc5d0aff14707982ad6e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 01:24:52 +0000
Subject: [PATCH 16/83] fix: find the region of points on the positive x axis

---
 src/core/pin_mesh_cyl.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/core/pin_mesh_cyl.cpp b/src/core/pin_mesh_cyl.cpp
index 04a2598..5e46d32 100644
--- a/src/core/pin_mesh_cyl.cpp
+++ b/src/core/pin_mesh_cyl.cpp
@@ -248,6 +248,8 @@ int PinMesh_Cyl::find_reg(Point2 p) const
     // Find the azimuthal subdivision that the point is in.
     real_t azi = p.alpha();
     int ia     = azi / (TWOPI / sub_azi_[0]);
+    // Points on the positive x axis have an angle of exactly 2*PI
+    ia         = ia % sub_azi_[0];
     int ireg   = ir * sub_azi_[0] + ia;
 
     assert((0 <= ireg) && (ireg < n_reg_));
-- 
2.43.0


From 7091e17bdc1c811ce31412ec6fff8c33056e218a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 01:24:52 +0000
Subject: [PATCH 17/83] fix: pick the azimuthal sector that the direction
 points into

---
 src/core/pin_mesh_cyl.cpp | 11 +++++------
 1 file changed, 5 insertions(+), 6 deletions(-)

diff --git a/src/core/pin_mesh_cyl.cpp b/src/core/pin_mesh_cyl.cpp
index 5e46d32..03d8b62 100644
--- a/src/core/pin_mesh_cyl.cpp
+++ b/src/core/pin_mesh_cyl.cpp
@@ -287,10 +287,7 @@ int PinMesh_Cyl::find_reg(Point2 p, Direction dir) const
     }
 
     // Find the azimuthal subdivision that the point is in.
-    real_t azi = p.alpha();
-    if (fp_equiv_ulp(azi, TWOPI)) {
-        azi = (dir.alpha > PI) ? TWOPI : 0.0;
-    }
+    real_t azi = fp_equiv_abs(r, 0.0) ? dir.alpha : p.alpha();
     real_t azi_space = (TWOPI / sub_azi_[0]);
     real_t azi_div   = azi / azi_space;
     int closest_azi  = std::round(azi_div);
@@ -298,11 +295,13 @@ int PinMesh_Cyl::find_reg(Point2 p, Direction dir) const
     int ia = -1;
 
     if (fp_equiv_abs(closest_azi * azi_space, azi)) {
-        ia = (azi < dir.alpha) ? closest_azi : closest_azi - 1;
+        // On an azimuthal division, look at which way the direction turns
+        real_t cross = p.x * dir.oy - p.y * dir.ox;
+        ia = (cross > 0.0) ? closest_azi : closest_azi - 1;
     } else {
         ia = (int)azi_div;
     }
-    ia = ia % sub_azi_[0];
+    ia = (ia + sub_azi_[0]) % sub_azi_[0];
 
     // Determine the actual region index
     int ireg = ir * sub_azi_[0] + ia;
-- 
2.43.0


From 11d90a363c7d4be0eef234de0472d25e002924b7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 01:25:17 +0000
Subject: [PATCH 18/83] fix: areas outside the rings with six azimuthal
 divisions

---
 src/core/pin_mesh_cyl.cpp | 15 +++++++++++++--
 1 file changed, 13 insertions(+), 2 deletions(-)

diff --git a/src/core/pin_mesh_cyl.cpp b/src/core/pin_mesh_cyl.cpp
index 03d8b62..b4cebb4 100644
--- a/src/core/pin_mesh_cyl.cpp
+++ b/src/core/pin_mesh_cyl.cpp
@@ -161,9 +161,20 @@ PinMesh_Cyl::PinMesh_Cyl(const pugi::xml_node &input) : PinMesh(input)
 
     // Add the volumes from the outer annular region
     real_t large_r = radii_[radii_.size() - 1];
-    real_t v_outer = (pitch_x_ * pitch_y_ - PI * large_r * large_r) / n_azi;
+    // Area of the part of the (square) pin between the positive x axis and the
+    // passed angle. The pieces outside the rings only have equal areas if all
+    // azimuthal divisions are multiples of 45 degrees.
+    auto sector_area = [h_pitch_x, h_pitch_y](real_t ang) {
+        int octant = ang / (0.25 * PI);
+        real_t rem = ang - octant * 0.25 * PI;
+        real_t frac =
+            (octant % 2 == 0) ? std::tan(rem) : 1.0 - std::tan(0.25 * PI - rem);
+        return 0.5 * h_pitch_x * h_pitch_y * (octant + frac);
+    };
     for (int ia = 0; ia < n_azi; ia++) {
-        areas_.push_back(v_outer);
+        areas_.push_back(sector_area((ia + 1) * ang_sep) -
+                         sector_area(ia * ang_sep) -
+                         PI * large_r * large_r / n_azi);
     }
     assert((int)areas_.size() == n_reg_);
 
-- 
2.43.0


From 2d3a605f2f867e8467e0b270b9bf2bf1b279e11b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 01:25:17 +0000
Subject: [PATCH 19/83] fix: accept whitespace around pin radii and refuse
 nonpositive ones

---
 src/core/pin_mesh_cyl.cpp | 18 ++++--------------
 1 file changed, 4 insertions(+), 14 deletions(-)

diff --git a/src/core/pin_mesh_cyl.cpp b/src/core/pin_mesh_cyl.cpp
index b4cebb4..0169d20 100644
--- a/src/core/pin_mesh_cyl.cpp
+++ b/src/core/pin_mesh_cyl.cpp
@@ -37,21 +37,11 @@ PinMesh_Cyl::PinMesh_Cyl(const pugi::xml_node &input) : PinMesh(input)
 {
     // Extract the radii and check for sanity
     {
-        stringstream radiiIn(input.child("radii").child_value());
-        while (!radiiIn.eof()) {
-            mocc::real_t rad;
-            radiiIn >> rad;
-            xs_radii_.push_back(rad);
-
-            if (radiiIn.fail()) {
-                stringstream msg;
-                msg << "Ran into a problem reading radii for pin ID=" << id_;
-                throw EXCEPT(msg.str().c_str());
-            }
-        }
-        if (!radiiIn.eof()) {
+        xs_radii_ = explode_string<real_t>(input.child("radii").child_value());
+        if (xs_radii_.empty() || (xs_radii_.front() <= 0.0)) {
             stringstream msg;
-            msg << "Dangling data in radii for pin ID=" << id_;
+            msg << "Ran into a problem reading radii for pin ID=" << id_;
+            throw EXCEPT(msg.str().c_str());
         }
         // Make sure the radii are ordered
         for (unsigned int i = 0; i < xs_radii_.size() - 1; i++) {
-- 
2.43.0


From 3789c4333e5f69379ca618bcb69e9b1d10114746 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 01:25:17 +0000
Subject: [PATCH 20/83] fix: refuse nonpositive pin mesh subdivisions

---
 src/core/pin_mesh_cyl.cpp | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/core/pin_mesh_cyl.cpp b/src/core/pin_mesh_cyl.cpp
index 0169d20..cd4a1d6 100644
--- a/src/core/pin_mesh_cyl.cpp
+++ b/src/core/pin_mesh_cyl.cpp
@@ -81,7 +81,7 @@ PinMesh_Cyl::PinMesh_Cyl(const pugi::xml_node &input) : PinMesh(input)
         // Make sure that the azimuthal division is even and <=8. One of
         // these days, ill solve the more general problem of any number of
         // azis.
-        if ((sub_azi_[0] % 2 != 0) | (sub_azi_[0] > 8)) {
+        if ((sub_azi_[0] % 2 != 0) || (sub_azi_[0] < 2) || (sub_azi_[0] > 8)) {
             throw EXCEPT("Only supporting even azimuthal subdivisions "
                          "<=8.");
         }
@@ -95,6 +95,11 @@ PinMesh_Cyl::PinMesh_Cyl(const pugi::xml_node &input) : PinMesh(input)
         if ((int)sub_rad_.size() != (n_xsreg_ - 1)) {
             throw EXCEPT("Wrong number of radial subdivisions specified.");
         }
+        for (auto n : sub_rad_) {
+            if (n < 1) {
+                throw EXCEPT("Radial subdivisions must be positive.");
+            }
+        }
     }
 
     //
-- 
2.43.0


From 7f1cea0de875ee499ce07a18725453b7444af92d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 01:33:35 +0000
Subject: [PATCH 21/83] fix: assign the materials of rectangular pins in the
 documented order

---
 src/core/pin.cpp           | 14 ++++++++++++++
 src/core/pin_mesh_rect.hpp | 12 ++++++++++++
 2 files changed, 26 insertions(+)

diff --git a/src/core/pin.cpp b/src/core/pin.cpp
index ae1d177..2c8e171 100644
--- a/src/core/pin.cpp
+++ b/src/core/pin.cpp
@@ -17,6 +17,7 @@
 #include "pin.hpp"
 
 #include <iostream>
+#include <algorithm>
 #include <map>
 #include <string>
 #include "pugixml.hpp"
@@ -62,6 +63,19 @@ Pin::Pin(const pugi::xml_node &input, const PinMesh_Map_t &meshes,
                      "definition");
     }
 
+    // The materials of a rectangular mesh are specified in matrix order, from
+    // the upper-left region to the lower-right, while its regions are numbered
+    // from the lower left. Flip the rows accordingly.
+    if (auto rect = dynamic_cast<const PinMesh_Rect *>(pin_mesh_)) {
+        int nx = rect->nx();
+        int ny = rect->ny();
+        for (int iy = 0; iy < ny / 2; iy++) {
+            std::swap_ranges(mat_IDs_.begin() + iy * nx,
+                             mat_IDs_.begin() + (iy + 1) * nx,
+                             mat_IDs_.begin() + (ny - iy - 1) * nx);
+        }
+    }
+
     // Make sure all of the material IDs are valid, and check for fissile
     // material
     is_fuel_ = false;
diff --git a/src/core/pin_mesh_rect.hpp b/src/core/pin_mesh_rect.hpp
index 0359dd9..baed9fa 100644
--- a/src/core/pin_mesh_rect.hpp
+++ b/src/core/pin_mesh_rect.hpp
@@ -42,6 +42,18 @@ public:
     distance_to_surface(Point2 p, Direction dir,
                         int &coincident) const override;
 
+    /// Number of divisions in the x direction
+    unsigned nx() const
+    {
+        return nx_;
+    }
+
+    /// Number of divisions in the y direction
+    unsigned ny() const
+    {
+        return ny_;
+    }
+
     void print(std::ostream &os) const override;
 
     std::string draw() const override;
-- 
2.43.0


From 2a87390489776fad054b0e87eebc3baaadb894b1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 01:33:35 +0000
Subject: [PATCH 22/83] fix: validate all material IDs of a pin

---
 src/core/pin.cpp | 1 -
 1 file changed, 1 deletion(-)

diff --git a/src/core/pin.cpp b/src/core/pin.cpp
index 2c8e171..7927847 100644
--- a/src/core/pin.cpp
+++ b/src/core/pin.cpp
@@ -86,7 +86,6 @@ Pin::Pin(const pugi::xml_node &input, const PinMesh_Map_t &meshes,
         const auto &mat = mat_lib[mid];
         if (mat.is_fissile()) {
             is_fuel_ = true;
-            break;
         }
     }
 
-- 
2.43.0


From 51acc05f0de0cd6e3fa31d432d5de5898c76dba8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 01:33:35 +0000
Subject: [PATCH 23/83] fix: reject negative lattice dimensions and unknown
 pins

---
 src/core/lattice.cpp | 11 ++++++++---
 1 file changed, 8 insertions(+), 3 deletions(-)

diff --git a/src/core/lattice.cpp b/src/core/lattice.cpp
index 391fd73..74a6f31 100644
--- a/src/core/lattice.cpp
+++ b/src/core/lattice.cpp
@@ -38,11 +38,13 @@ Lattice::Lattice(const pugi::xml_node &input,
     }
 
     // Get dimensions
-    nx_ = input.attribute("nx").as_int(0);
-    ny_ = input.attribute("ny").as_int(0);
-    if ((nx_ == 0) | (ny_ == 0)) {
+    int nx = input.attribute("nx").as_int(0);
+    int ny = input.attribute("ny").as_int(0);
+    if ((nx < 1) || (ny < 1)) {
         throw EXCEPT("Trouble reading lattice dimensions.");
     }
+    nx_ = nx;
+    ny_ = ny;
 
     auto pin_ids = explode_string<int>(input.child_value());
     if (pin_ids.size() != nx_ * ny_) {
@@ -61,6 +63,9 @@ Lattice::Lattice(const pugi::xml_node &input,
         for (unsigned int ix = 0; ix < nx_; ix++) {
             unsigned int col       = ix;
             int pin_id             = pin_ids[iy * nx_ + ix];
+            if (pins.count(pin_id) == 0) {
+                throw EXCEPT("Unrecognized pin ID in lattice.");
+            }
             pins_[row * nx_ + col] = pins.at(pin_id).get();
         }
     }
-- 
2.43.0


From 03a4190e7eed517a355078bd111a59634107cc8c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 01:33:35 +0000
Subject: [PATCH 24/83] fix: reject negative core dimensions

---
 src/core/core.cpp | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/core/core.cpp b/src/core/core.cpp
index 5db1fae..8710830 100644
--- a/src/core/core.cpp
+++ b/src/core/core.cpp
@@ -47,8 +47,9 @@ Core::Core(const pugi::xml_node &input,
            const std::map<int, UP_Assembly_t> &assemblies)
     : nx_(input.attribute("nx").as_int(0)), ny_(input.attribute("ny").as_int(0))
 {
-    // Make sure that we read the a proper ID
-    if ((nx_ < 1) | (ny_ < 1)) {
+    // Make sure that we read proper dimensions
+    if ((input.attribute("nx").as_int(0) < 1) ||
+        (input.attribute("ny").as_int(0) < 1)) {
         throw EXCEPT("Invalid core dimensions.");
     }
 
-- 
2.43.0


From fa0785e0cfdf554860fb312277b2b455d4ceb019 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 01:33:35 +0000
Subject: [PATCH 25/83] fix: reject assemblies with invalid plane counts or
 heights

---
 src/core/assembly.cpp | 16 ++++++++++++++--
 1 file changed, 14 insertions(+), 2 deletions(-)

diff --git a/src/core/assembly.cpp b/src/core/assembly.cpp
index 56e00b6..0457943 100644
--- a/src/core/assembly.cpp
+++ b/src/core/assembly.cpp
@@ -37,12 +37,13 @@ Assembly::Assembly(const pugi::xml_node &input,
     }
 
     // Parse number of planes
-    nz_ = input.attribute("np").as_int(0);
-    if (nz_ == 0) {
+    int np = input.attribute("np").as_int(0);
+    if (np < 1) {
         throw EXCEPT(
             "Invalid number of planes (nz) when parsing "
             "assembly.");
     }
+    nz_ = np;
 
     // Parse plane heights (scalar form)
     if (!(input.attribute("hz").empty() ^ input.child("hz").empty())) {
@@ -76,6 +77,17 @@ Assembly::Assembly(const pugi::xml_node &input,
         std::reverse(dz_.begin(), dz_.end());
     }
 
+    // Make sure that all of the plane heights make sense
+    bool good_dz = dz_.size() == nz_;
+    for (auto dz : dz_) {
+        good_dz = good_dz && (dz > 0.0);
+    }
+    if (!good_dz) {
+        std::stringstream msg;
+        msg << "Invalid plane heights provided for assembly " << id_ << ".";
+        throw EXCEPT(msg.str());
+    }
+
     // Parse lattice IDs
     if (input.child("lattices").empty()) {
         throw EXCEPT("No lattices specified!");
-- 
2.43.0


From 2f32d25c514e1f33019dff8ede4817ab4c3e40e1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 01:33:35 +0000
Subject: [PATCH 26/83] fix: reject planes whose lattices have pins that do not
 line up

---
 src/core/plane.cpp | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/core/plane.cpp b/src/core/plane.cpp
index f29d6a0..42256c3 100644
--- a/src/core/plane.cpp
+++ b/src/core/plane.cpp
@@ -59,6 +59,11 @@ Plane::Plane(const std::vector<const Lattice *> &lattices, size_t nx, size_t ny)
             if (!fp_equiv_ulp(this->at(ix, iy).hy(), dy[iy])) {
                 throw EXCEPT("Lattices do not have compatible dimensions.");
             }
+            // The pins have to line up with those of the other lattices, too
+            if ((this->at(ix, iy).hx_vec() != this->at(ix, 0).hx_vec()) ||
+                (this->at(ix, iy).hy_vec() != this->at(0, iy).hy_vec())) {
+                throw EXCEPT("Pins of adjacent lattices do not line up.");
+            }
         }
     }
 
-- 
2.43.0


From 704d55338d3382025fbb8682d41ecba8d4f0d80a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 01:33:35 +0000
Subject: [PATCH 27/83] fix: use the pin-local point in region lookups

---
 src/core/core_mesh.hpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/core/core_mesh.hpp b/src/core/core_mesh.hpp
index be9c798..1d090b3 100644
--- a/src/core/core_mesh.hpp
+++ b/src/core/core_mesh.hpp
@@ -330,7 +330,8 @@ public:
         Point2 p2d    = p.to_2d();
         const auto pm = plane.get_pinmesh(p2d, ireg);
 
-        ireg += pm->find_reg(p2d);
+        // get_pinmesh() moves p2d to the pin origin; look up the pin-local point
+        ireg += pm->find_reg(p.to_2d() - p2d);
 
         return ireg;
     }
-- 
2.43.0


From 9ea02cd4cd9cdf36a7bcfa4ad9c85e23ba18b5a8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 01:33:35 +0000
Subject: [PATCH 28/83] fix: use one pin for all location information

---
 src/core/core_mesh.cpp | 20 +++++++++++---------
 1 file changed, 11 insertions(+), 9 deletions(-)

diff --git a/src/core/core_mesh.cpp b/src/core/core_mesh.cpp
index b96a5e0..db58882 100644
--- a/src/core/core_mesh.cpp
+++ b/src/core/core_mesh.cpp
@@ -248,15 +248,6 @@ CoreMesh::LocationInfo CoreMesh::get_location_info(Point3 p,
 {
     LocationInfo info;
 
-    // Locate the pin Position
-    int ix = std::distance(x_vec_.begin(),
-                           std::lower_bound(x_vec_.begin(), x_vec_.end(), p.x));
-    info.pos.x = ix - 1;
-
-    int iy = std::distance(y_vec_.begin(),
-                           std::lower_bound(y_vec_.begin(), y_vec_.end(), p.y));
-    info.pos.y = iy - 1;
-
     info.pos.z = this->plane_index(p.z, dir.oz);
 
     // Make a 2D copy of the 3D point to convert to pin-local
@@ -270,6 +261,17 @@ CoreMesh::LocationInfo CoreMesh::get_location_info(Point3 p,
         planes_[plane_index].get_pinmesh(pin_origin, info.reg_offset, dir);
     info.local_point -= pin_origin;
 
+    // Locate the pin Position. Use the origin of the pin that was found above,
+    // so that both agree for points that lie on a pin boundary.
+    info.pos.x = std::distance(x_vec_.begin(),
+                               std::lower_bound(x_vec_.begin(), x_vec_.end(),
+                                                pin_origin.x)) -
+                 1;
+    info.pos.y = std::distance(y_vec_.begin(),
+                               std::lower_bound(y_vec_.begin(), y_vec_.end(),
+                                                pin_origin.y)) -
+                 1;
+
     info.pin_boundary = {
         {Point3(x_vec_[info.pos.x], y_vec_[info.pos.y], z_vec_[info.pos.z]),
          Point3(x_vec_[info.pos.x + 1], y_vec_[info.pos.y + 1],
-- 
2.43.0


From d1145e0f12a2a43d9e4035e70bbb4bab213bdc46 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 01:33:35 +0000
Subject: [PATCH 29/83] fix: find the first pin at the lower boundary of the
 mesh

---
 src/core/lattice.cpp | 12 ++++++++----
 src/core/plane.cpp   | 12 ++++++++----
 2 files changed, 16 insertions(+), 8 deletions(-)

diff --git a/src/core/lattice.cpp b/src/core/lattice.cpp
index 74a6f31..f8d6bae 100644
--- a/src/core/lattice.cpp
+++ b/src/core/lattice.cpp
@@ -145,8 +145,10 @@ const PinMesh *Lattice::get_pinmesh(Point2 &p, int &first_reg,
     if (fp_equiv_abs(p.x, x_vec_[ix])) {
         ix = (dir.ox > 0.0) ? ix + 1 : ix;
     }
-    ix--;
-    ix = std::min(nx_ - 1, std::max(0u, ix));
+    if (ix > 0) {
+        ix--;
+    }
+    ix = std::min(nx_ - 1, ix);
 
     p.x = 0.5 * (x_vec_[ix + 1] + x_vec_[ix]);
 
@@ -156,8 +158,10 @@ const PinMesh *Lattice::get_pinmesh(Point2 &p, int &first_reg,
     if (fp_equiv_abs(p.y, y_vec_[iy])) {
         iy = (dir.oy > 0.0) ? iy + 1 : iy;
     }
-    iy--;
-    iy  = std::min(ny_ - 1, std::max(0u, iy));
+    if (iy > 0) {
+        iy--;
+    }
+    iy  = std::min(ny_ - 1, iy);
     p.y = 0.5 * (y_vec_[iy + 1] + y_vec_[iy]);
 
     unsigned int i = iy * nx_ + ix;
diff --git a/src/core/plane.cpp b/src/core/plane.cpp
index 42256c3..b276184 100644
--- a/src/core/plane.cpp
+++ b/src/core/plane.cpp
@@ -112,17 +112,21 @@ const PinMesh *Plane::get_pinmesh(Point2 &p, int &first_reg,
     if (fp_equiv(p.x, hx_[ix])) {
         ix = (dir.ox > 0.0) ? ix + 1 : ix;
     }
-    ix--;
+    if (ix > 0) {
+        ix--;
+    }
     unsigned iy = std::distance(
         hy_.begin(), std::lower_bound(hy_.begin(), hy_.end(), p.y, fuzzy_lt));
     if (fp_equiv(p.y, hy_[iy])) {
         iy = (dir.oy > 0.0) ? iy + 1 : iy;
     }
-    iy--;
+    if (iy > 0) {
+        iy--;
+    }
 
     // Force indices to be inside the plane
-    ix = std::min(nx_ - 1, std::max(0u, ix));
-    iy = std::min(ny_ - 1, std::max(0u, iy));
+    ix = std::min(nx_ - 1, ix);
+    iy = std::min(ny_ - 1, iy);
 
     size_t ilat = nx_ * iy + ix;
 
-- 
2.43.0


From be85994ef47ec6ca0c5065a520451e97abb3e827 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 01:38:53 +0000
Subject: [PATCH 30/83] fix: account for the aspect ratio in rational angle
 modularization

---
 src/sweepers/moc/ray_data.cpp | 24 +++++++++++++-----------
 1 file changed, 13 insertions(+), 11 deletions(-)

diff --git a/src/sweepers/moc/ray_data.cpp b/src/sweepers/moc/ray_data.cpp
index 2740e69..f4b096c 100644
--- a/src/sweepers/moc/ray_data.cpp
+++ b/src/sweepers/moc/ray_data.cpp
@@ -496,22 +496,24 @@ std::pair<int, int> RayData::modularize_angle(Angle ang, real_t hx, real_t hy,
 
     switch (modularization_method_) {
     case Modularization::RATIONAL: {
-        // Get the angle cast into a slope less than 1, so that we can find a
-        // rational approximation to it.
-        real_t m = (ang.alpha < PI / 4.0) ? std::tan(ang.alpha)
-                                          : std::tan(PI / 2.0 - ang.alpha);
-        // Determine the best rational approximation of the slope.
-        auto Nxy     = rational_approximation(m, 0.002, 0);
-        Nx           = Nxy.first;
-        Ny           = Nxy.second;
+        // The ratio Nx/Ny that reproduces the angle, accounting for the aspect
+        // ratio of the module. Cast it into a number less than 1, so that we
+        // can find a rational approximation to it.
+        real_t ratio = std::tan(ang.alpha) * hx / hy;
+        bool flip    = ratio > 1.0;
+        real_t m     = flip ? 1.0 / ratio : ratio;
+        // Determine the best rational approximation of the ratio.
+        auto Nxy = rational_approximation(m, 0.002, 0);
+        Nx       = Nxy.first;
+        Ny       = Nxy.second;
+        if (flip) {
+            std::swap(Nx, Ny);
+        }
         real_t alpha = std::atan((Nx * hy) / (Ny * hx));
         int scale =
             std::ceil((hx / Nx * std::abs(std::sin(alpha))) / nominal_spacing);
         Nx *= scale;
         Ny *= scale;
-        if (ang.alpha > PI / 4.0) {
-            std::swap(Nx, Ny);
-        }
 
     } break;
     case Modularization::TRIG:
-- 
2.43.0


From df4fb40b1ede684991fe0a5c52e660fb8d3ce554 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 01:40:59 +0000
Subject: [PATCH 31/83] fix: treat a ray through a mesh corner as one point

---
 src/core/mesh.cpp | 14 ++++++++++++++
 1 file changed, 14 insertions(+)

diff --git a/src/core/mesh.cpp b/src/core/mesh.cpp
index 456c453..ffd1f2a 100644
--- a/src/core/mesh.cpp
+++ b/src/core/mesh.cpp
@@ -338,6 +338,20 @@ void Mesh::trace(std::vector<Point2> &ps) const
     // Since the original points passed in are already on the domain boundary,
     // skip intersections with the bounding box.
 
+    // Snap points to the mesh lines that they nearly touch, so that a line
+    // through a corner does not yield several distinct points there.
+    auto snap = [](real_t &v, const VecF &faces) {
+        for (auto f : faces) {
+            if (std::abs(v - f) < 1000.0 * REAL_FUZZ) {
+                v = f;
+            }
+        }
+    };
+    for (auto &p : ps) {
+        snap(p.x, x_vec_);
+        snap(p.y, y_vec_);
+    }
+
     // Sort the points and remove duplicates
     std::sort(ps.begin(), ps.end());
     ps.erase(std::unique(ps.begin(), ps.end()), ps.end());
-- 
2.43.0


From 52df7d53bed06ce996638610ce741b16099f74f9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 01:45:40 +0000
Subject: [PATCH 32/83] fix: keep the fissile flag current when region cross
 sections change

---
 src/core/xs_mesh_region.hpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/core/xs_mesh_region.hpp b/src/core/xs_mesh_region.hpp
index 04b65ed..625901f 100644
--- a/src/core/xs_mesh_region.hpp
+++ b/src/core/xs_mesh_region.hpp
@@ -153,12 +153,16 @@ public:
     void update(const VecF &xstr, const VecF &xsnf, const VecF &xsch,
                 const VecF &xsf, const ScatteringMatrix &xssc)
     {
+        is_fissile_ = false;
         for (int ig = 0; ig < xssc.n_group(); ig++) {
             xsmactr_[ig] = xstr[ig];
             xsmacnf_[ig] = xsnf[ig];
             xsmacch_[ig] = xsch[ig];
             xsmacf_[ig]  = xsf[ig];
             xsmacrm_[ig] = xstr[ig] - xssc.self_scat(ig);
+            if (xsmacnf_[ig] > 0.0) {
+                is_fissile_ = true;
+            }
         }
         xsmacsc_ = xssc;
         return;
-- 
2.43.0


From c72a473af30ef1baf3ff997e02db6d54b8bb652b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 01:45:40 +0000
Subject: [PATCH 33/83] fix: re-expand cross sections after an expansion with
 splitting

---
 src/core/xs_mesh.hpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/core/xs_mesh.hpp b/src/core/xs_mesh.hpp
index 118a704..8f70929 100644
--- a/src/core/xs_mesh.hpp
+++ b/src/core/xs_mesh.hpp
@@ -285,6 +285,9 @@ public:
             // If we are doing splitting, skip the checks on group, etc. and
             // always expand
             assert((int)split.size() == xs_mesh_->n_reg_expanded());
+            // The stored cross sections are no longer those of any group
+            // without splitting
+            state_->first = -1;
             for (const auto &xsr : *xs_mesh_) {
                 real_t xs = xsr.xsmactr(group);
                 for (const int ireg : xsr.reg()) {
-- 
2.43.0


From e70e6b1331f752d19a762233f989bdc8e060ebfd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 01:50:40 +0000
Subject: [PATCH 34/83] fix: report HDF5 files and groups that cannot be opened

---
 src/util/h5file.cpp | 12 +++++++++---
 src/util/h5file.hpp |  9 ++++++++-
 2 files changed, 17 insertions(+), 4 deletions(-)

diff --git a/src/util/h5file.cpp b/src/util/h5file.cpp
index b5e85ee..65bf3e3 100644
--- a/src/util/h5file.cpp
+++ b/src/util/h5file.cpp
@@ -35,10 +35,16 @@ unsigned int convert_access(mocc::H5Access access)
 
 namespace mocc {
 H5Node::H5Node(const char *filename, H5Access access)
-    : file_(new H5::H5File(filename, convert_access(access))),
-      node_(file_),
-      access_(access)
+    : file_(nullptr), node_(nullptr), access_(access)
 {
+    try {
+        file_.reset(new H5::H5File(filename, convert_access(access)));
+    } catch (...) {
+        std::stringstream msg;
+        msg << "Failed to open file: " << filename;
+        throw EXCEPT(msg.str());
+    }
+    node_ = file_;
     return;
 }
 
diff --git a/src/util/h5file.hpp b/src/util/h5file.hpp
index 77694f8..b8ddefe 100644
--- a/src/util/h5file.hpp
+++ b/src/util/h5file.hpp
@@ -113,7 +113,14 @@ public:
      */
     H5Node operator[](std::string path)
     {
-        std::shared_ptr<H5::CommonFG> g(new H5::Group(node_->openGroup(path)));
+        std::shared_ptr<H5::CommonFG> g;
+        try {
+            g.reset(new H5::Group(node_->openGroup(path)));
+        } catch (...) {
+            std::stringstream msg;
+            msg << "Failed to open group: " << path;
+            throw EXCEPT(msg.str());
+        }
         return H5Node(g, access_);
     }
 
-- 
2.43.0


From 49d8161c9c95e0ed165a8df0a096c0749b4c7623 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 01:50:40 +0000
Subject: [PATCH 35/83] fix: compare the rank of a dataset with the array it is
 read into

---
 src/util/h5file.hpp | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/src/util/h5file.hpp b/src/util/h5file.hpp
index b8ddefe..fa0cfc4 100644
--- a/src/util/h5file.hpp
+++ b/src/util/h5file.hpp
@@ -296,9 +296,6 @@ public:
             throw EXCEPT(msg.str().c_str());
         }
 
-        if ((int)ndim != data.dimensions()) {
-        }
-
         auto shape = data.shape();
         auto size  = data.size();
 
@@ -324,6 +321,10 @@ public:
                 }
             } else {
                 // Make sure the dimensions match
+                if (data.dimensions() != ndim) {
+                    throw EXCEPT(
+                        "Array and dataset dimensionality disagree.");
+                }
                 for (int i = 0; i < ndim; i++) {
                     if (shape[i] != (int)dims[i]) {
                         throw EXCEPT("Incorrect array shape.");
-- 
2.43.0


From 6a6333afebfd5d2c2f3fb11fe0d7fcf643a79aed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 01:50:40 +0000
Subject: [PATCH 36/83] fix: reject cross-section data with the bottom plane
 above the top plane

---
 src/core/xs_mesh_homogenized.cpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/core/xs_mesh_homogenized.cpp b/src/core/xs_mesh_homogenized.cpp
index 175a44c..a46ffa8 100644
--- a/src/core/xs_mesh_homogenized.cpp
+++ b/src/core/xs_mesh_homogenized.cpp
@@ -493,6 +493,9 @@ void XSMeshHomogenized::read_data_multi(const pugi::xml_node &input)
             if ((top_plane < 0) || (top_plane >= np)) {
                 throw EXCEPT("Invalid top_plane");
             }
+            if (bot_plane > top_plane) {
+                throw EXCEPT("bottom_plane is above top_plane");
+            }
 
             if (data.attribute("file").empty()) {
                 throw EXCEPT("No file specified.");
-- 
2.43.0


From 8b2774b5446ede0cf2df5cbcfc9dbb0686409d95 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 01:50:40 +0000
Subject: [PATCH 37/83] fix: check the size of cross-section data read from a
 file

---
 src/core/xs_mesh_homogenized.cpp | 19 +++++++++++++++++--
 1 file changed, 17 insertions(+), 2 deletions(-)

diff --git a/src/core/xs_mesh_homogenized.cpp b/src/core/xs_mesh_homogenized.cpp
index a46ffa8..23d062f 100644
--- a/src/core/xs_mesh_homogenized.cpp
+++ b/src/core/xs_mesh_homogenized.cpp
@@ -120,7 +120,7 @@ XSMeshHomogenized::XSMeshHomogenized(const CoreMesh &mesh,
         const auto &data = input.child("data");
         H5Node h5d(data.attribute("file").value(), H5Access::READ);
         auto dims = h5d.dimensions("/xsmesh/xstr/0");
-        if ((dims[2] == mesh_.nx()) && (dims[1] == mesh_.ny()) &&
+        if ((dims.size() == 3) && (dims[2] == mesh_.nx()) && (dims[1] == mesh_.ny()) &&
             (dims[0] == mesh_.macroplanes().size())) {
             single_compat = true;
         }
@@ -383,6 +383,13 @@ void XSMeshHomogenized::read_data_single(const pugi::xml_node &data)
 
     H5Node h5d(data.attribute("file").value(), H5Access::READ);
 
+    // This also makes sure that the number of groups agrees
+    try {
+        h5d.read("/xsmesh/eubounds", eubounds_);
+    } catch (Exception e) {
+        throw EXCEPT_E("Failed to read group bounds", e);
+    }
+
     // We are going to want a nice contiguous buffer for storing xs as they
     // come in from the file
     ArrayB1 tr_buf(regions_.size());
@@ -456,7 +463,8 @@ void XSMeshHomogenized::read_data_single(const pugi::xml_node &data)
     } catch (Exception e) {
         throw EXCEPT_E("Failed to read scattering data", e);
     }
-    if (scat.shape()[0] != (int)regions_.size()) {
+    if ((scat.extent(0) != (int)regions_.size()) ||
+        (scat.extent(1) != (int)ng_) || (scat.extent(2) != (int)ng_)) {
         throw EXCEPT("Scattering data is the wrong size");
     }
 
@@ -504,6 +512,9 @@ void XSMeshHomogenized::read_data_multi(const pugi::xml_node &input)
             // Check the dimensions of the contained XSMesh
             H5Node h5d(data.attribute("file").value(), H5Access::READ);
             auto dims = h5d.dimensions("/xsmesh/xstr/0");
+            if (dims.size() != 3) {
+                throw EXCEPT("XS Mesh data should have three dimensions");
+            }
             if (dims[2] != mesh_.nx()) {
                 std::stringstream msg;
                 msg << "Incorrect XS Mesh dimensions: " << dims[2] << " "
@@ -601,6 +612,10 @@ void XSMeshHomogenized::read_data_multi(const pugi::xml_node &input)
         // as we do the others, so this can be read in more naturally.
         ArrayB3 scat;
         h5d.read("/xsmesh/xssc", scat);
+        if ((scat.extent(0) != nreg_plane) || (scat.extent(1) != (int)ng_) ||
+            (scat.extent(2) != (int)ng_)) {
+            throw EXCEPT("Scattering data is the wrong size");
+        }
 
         // Storing the results of the read above into the appropriate arrays
         // should be sufficient for all cross sections except the scattering
-- 
2.43.0


From 1cf1d9032ff6d80ac778259c4b21a2757ec53c21 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 01:55:12 +0000
Subject: [PATCH 38/83] fix: keep negative entries of scattering matrices

---
 src/core/scattering_matrix.cpp   | 4 ++--
 src/core/xs_mesh_homogenized.cpp | 2 +-
 2 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/core/scattering_matrix.cpp b/src/core/scattering_matrix.cpp
index 0009cb5..37d5f5c 100644
--- a/src/core/scattering_matrix.cpp
+++ b/src/core/scattering_matrix.cpp
@@ -73,13 +73,13 @@ ScatteringMatrix::ScatteringMatrix(const ArrayB2 &scat)
         std::pair<int, int> these_bounds;
         for (int from = 0; from < ng_; from++) {
             these_bounds.first = from;
-            if (scat(to, from) > 0.0) {
+            if (scat(to, from) != 0.0) {
                 break;
             }
         }
         for (int from = ng_ - 1; from >= 0; from--) {
             these_bounds.second = from;
-            if (scat(to, from) > 0.0) {
+            if (scat(to, from) != 0.0) {
                 break;
             }
         }
diff --git a/src/core/xs_mesh_homogenized.cpp b/src/core/xs_mesh_homogenized.cpp
index 23d062f..e76893f 100644
--- a/src/core/xs_mesh_homogenized.cpp
+++ b/src/core/xs_mesh_homogenized.cpp
@@ -342,7 +342,7 @@ void XSMeshHomogenized::homogenize_region_flux(int i, int first_reg,
         }
 
         for (size_t igg = 0; igg < ng_; igg++) {
-            if (scat[ig][igg] > 0.0) {
+            if (scat[ig][igg] != 0.0) {
                 scat[ig][igg] /= scatsum[igg];
             }
         }
-- 
2.43.0


From 81ff1bc7f3d48ad5ca31f930815901043b34df1b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 01:55:12 +0000
Subject: [PATCH 39/83] fix: reject malformed lines of a material library

---
 src/core/material_lib.cpp | 89 +++++++++++++++------------------------
 1 file changed, 35 insertions(+), 54 deletions(-)

diff --git a/src/core/material_lib.cpp b/src/core/material_lib.cpp
index 9c45e76..1787e8f 100644
--- a/src/core/material_lib.cpp
+++ b/src/core/material_lib.cpp
@@ -67,27 +67,19 @@ MaterialLib::MaterialLib(const pugi::xml_node &input) : n_material_(0)
     {
         // skip the first line
         matLibFile.getline();
-        stringstream inBuf(matLibFile.getline());
-        inBuf >> n_grp_;
-        if (inBuf.fail()) {
-            throw EXCEPT("Failed to read number of groups!");
-        }
-        inBuf >> n_material_lib_;
-        if (inBuf.fail()) {
-            throw EXCEPT("Failed to read number of materials!");
+        std::vector<int> sizes = explode_string<int>(matLibFile.getline());
+        if (sizes.size() != 2 || sizes[0] < 1 || sizes[1] < 1) {
+            throw EXCEPT("Failed to read number of groups and materials!");
         }
+        n_grp_          = sizes[0];
+        n_material_lib_ = sizes[1];
     }
 
     // Group boundaries
     {
-        stringstream inBuf(matLibFile.getline());
-        for (size_t i = 0; i < n_grp_; i++) {
-            double bound;
-            inBuf >> bound;
-            g_bounds_.push_back(bound);
-            if (inBuf.fail()) {
-                throw EXCEPT("Trouble reading group bounds!");
-            }
+        g_bounds_ = explode_string<real_t>(matLibFile.getline());
+        if (g_bounds_.size() != n_grp_) {
+            throw EXCEPT("Trouble reading group bounds!");
         }
     }
 
@@ -98,7 +90,9 @@ MaterialLib::MaterialLib(const pugi::xml_node &input) : n_material_(0)
 
         regex headExp("^\\s*XSMACRO\\s+([^\\s]+)\\s+([0-9]+)\\s*$");
         smatch results;
-        regex_match(line, results, headExp);
+        if (!regex_match(line, results, headExp)) {
+            throw EXCEPT("Trouble reading material header!");
+        }
         string materialName = results[1].str();
 
         // Read in the non-scattering stuff
@@ -157,27 +151,19 @@ MaterialLib::MaterialLib(FileScrubber &input) : n_material_(0)
     {
         // skip the first line
         input.getline();
-        stringstream inBuf(input.getline());
-        inBuf >> n_grp_;
-        if (inBuf.fail()) {
-            throw EXCEPT("Failed to read number of groups!");
-        }
-        inBuf >> n_material_lib_;
-        if (inBuf.fail()) {
-            throw EXCEPT("Failed to read number of materials!");
+        std::vector<int> sizes = explode_string<int>(input.getline());
+        if (sizes.size() != 2 || sizes[0] < 1 || sizes[1] < 1) {
+            throw EXCEPT("Failed to read number of groups and materials!");
         }
+        n_grp_          = sizes[0];
+        n_material_lib_ = sizes[1];
     }
 
     // Group boundaries
     {
-        stringstream inBuf(input.getline());
-        for (size_t i = 0; i < n_grp_; i++) {
-            double bound;
-            inBuf >> bound;
-            g_bounds_.push_back(bound);
-            if (inBuf.fail()) {
-                throw EXCEPT("Trouble reading group bounds!");
-            }
+        g_bounds_ = explode_string<real_t>(input.getline());
+        if (g_bounds_.size() != n_grp_) {
+            throw EXCEPT("Trouble reading group bounds!");
         }
     }
 
@@ -188,40 +174,35 @@ MaterialLib::MaterialLib(FileScrubber &input) : n_material_(0)
 
         regex headExp("^\\s*XSMACRO\\s+([^\\s]+)\\s+([0-9]+)\\s*$");
         smatch results;
-        regex_match(line, results, headExp);
+        if (!regex_match(line, results, headExp)) {
+            throw EXCEPT("Trouble reading material header!");
+        }
         string materialName = results[1].str();
 
         // Read in the non-scattering stuff
-        VecF abs;
-        VecF nuFiss;
-        VecF fiss;
-        VecF chi;
+        VecF abs(n_grp_, 0.0);
+        VecF nuFiss(n_grp_, 0.0);
+        VecF fiss(n_grp_, 0.0);
+        VecF chi(n_grp_, 0.0);
         for (size_t ig = 0; ig < n_grp_; ig++) {
             stringstream inBuf(input.getline());
-            double val;
-
-            inBuf >> val;
-            abs.push_back(val);
-            inBuf >> val;
-            nuFiss.push_back(val);
-            inBuf >> val;
-            fiss.push_back(val);
-            inBuf >> val;
-            chi.push_back(val);
-            if (inBuf.fail()) {
+            VecF xsvals = explode_string<real_t>(inBuf.str());
+            if (xsvals.size() != 4) {
                 throw EXCEPT("Trouble reading XS data from library!");
             }
+            abs[ig]    = xsvals[0];
+            nuFiss[ig] = xsvals[1];
+            fiss[ig]   = xsvals[2];
+            chi[ig]    = xsvals[3];
         }
 
         // Read in the scattering table
         std::vector<VecF> scatTable;
         for (size_t ig = 0; ig < n_grp_; ig++) {
             stringstream inBuf(input.getline());
-            VecF scatRow;
-            for (size_t igg = 0; igg < n_grp_; igg++) {
-                double val;
-                inBuf >> val;
-                scatRow.push_back(val);
+            VecF scatRow = explode_string<real_t>(inBuf.str());
+            if (scatRow.size() != n_grp_) {
+                throw EXCEPT("Trouble reading scattering row");
             }
             scatTable.push_back(scatRow);
         }
-- 
2.43.0


From 44859dc07c20e01c042bcb047bdcaf1e75857910 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 01:55:12 +0000
Subject: [PATCH 40/83] fix: reject duplicate material names and IDs

---
 src/core/material_lib.cpp | 11 +++++------
 1 file changed, 5 insertions(+), 6 deletions(-)

diff --git a/src/core/material_lib.cpp b/src/core/material_lib.cpp
index 1787e8f..a320e29 100644
--- a/src/core/material_lib.cpp
+++ b/src/core/material_lib.cpp
@@ -125,9 +125,7 @@ MaterialLib::MaterialLib(const pugi::xml_node &input) : n_material_(0)
 
         // produce a Material object and add it to the library
         lib_materials_.push_back(Material(abs, nuFiss, fiss, chi, scatTable));
-        try {
-            material_names_[materialName] = imat;
-        } catch (...) {
+        if (!material_names_.emplace(materialName, imat).second) {
             throw EXCEPT("Failed to add material from library. Duplicate "
                          "name?");
         }
@@ -209,9 +207,7 @@ MaterialLib::MaterialLib(FileScrubber &input) : n_material_(0)
 
         // produce a Material object and add it to the library
         lib_materials_.push_back(Material(abs, nuFiss, fiss, chi, scatTable));
-        try {
-            material_names_[materialName] = imat;
-        } catch (...) {
+        if (!material_names_.emplace(materialName, imat).second) {
             throw EXCEPT("Failed to add material from library. Duplicate "
                          "name?");
         }
@@ -220,6 +216,9 @@ MaterialLib::MaterialLib(FileScrubber &input) : n_material_(0)
 
 void MaterialLib::assignID(int id, std::string name)
 {
+    if (material_ids_.count(id) > 0) {
+        throw EXCEPT("Failed to map material to ID. Duplicate ID?");
+    }
     try {
         LogFile << "Mapping material '" << name << "' to ID " << id
                 << std::endl;
-- 
2.43.0


From 406eaeada163b5f366a4b3025fcb7d6be55cf640 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 02:13:40 +0000
Subject: [PATCH 41/83] fix: do not scale the relative deviation of spatial
 tallies by volume

---
 src/sweepers/mc/tally_spatial.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/sweepers/mc/tally_spatial.hpp b/src/sweepers/mc/tally_spatial.hpp
index 9abfbf1..12c6171 100644
--- a/src/sweepers/mc/tally_spatial.hpp
+++ b/src/sweepers/mc/tally_spatial.hpp
@@ -131,8 +131,8 @@ public:
             real_t mean_of_square = data_[i].second / (n_ - 1.0);
             real_t variance       = mean_of_square - square_of_mean;
 
-            ret.push_back({mean * r_norm,
-                           std::sqrt(variance * r_norm) / (mean * r_norm)});
+            // The normalization cancels in the relative deviation
+            ret.push_back({mean * r_norm, std::sqrt(variance) / mean});
         }
 
         return ret;
-- 
2.43.0


From 529ee11589ecc2b285dbc0f7ae2485673d1a31e7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 02:13:40 +0000
Subject: [PATCH 42/83] fix: keep round-off from making tally variances
 negative

---
 src/sweepers/mc/tally_scalar.hpp  | 3 ++-
 src/sweepers/mc/tally_spatial.hpp | 3 ++-
 2 files changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/sweepers/mc/tally_scalar.hpp b/src/sweepers/mc/tally_scalar.hpp
index eda32b2..4a78505 100644
--- a/src/sweepers/mc/tally_scalar.hpp
+++ b/src/sweepers/mc/tally_scalar.hpp
@@ -88,7 +88,8 @@ public:
         val.first  = mean;
         val.second = 1.0 / (weight_ - 1.0) *
                      ((1.0 / weight_) * sum_square_ - mean * mean);
-        val.second = std::sqrt(val.second) / mean;
+        // Round-off can make the variance slightly negative
+        val.second = std::sqrt(std::max(0.0, val.second)) / mean;
         return val;
     }
 
diff --git a/src/sweepers/mc/tally_spatial.hpp b/src/sweepers/mc/tally_spatial.hpp
index 12c6171..952f4d9 100644
--- a/src/sweepers/mc/tally_spatial.hpp
+++ b/src/sweepers/mc/tally_spatial.hpp
@@ -129,7 +129,8 @@ public:
             real_t square_of_mean =
                 data_[i].first * data_[i].first / (n_ * (n_ - 1.0));
             real_t mean_of_square = data_[i].second / (n_ - 1.0);
-            real_t variance       = mean_of_square - square_of_mean;
+            // Round-off can make this slightly negative
+            real_t variance = std::max(0.0, mean_of_square - square_of_mean);
 
             // The normalization cancels in the relative deviation
             ret.push_back({mean * r_norm, std::sqrt(variance) / mean});
-- 
2.43.0


From 448816ae38a6e02d91c56a11d6ed9b2ff5a3142e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 02:13:40 +0000
Subject: [PATCH 43/83] fix: start fission banks with no fission weight

---
 src/sweepers/mc/fission_bank.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/sweepers/mc/fission_bank.cpp b/src/sweepers/mc/fission_bank.cpp
index d0fa6b0..afbed1a 100644
--- a/src/sweepers/mc/fission_bank.cpp
+++ b/src/sweepers/mc/fission_bank.cpp
@@ -22,7 +22,8 @@
 
 namespace mocc {
 namespace mc {
-FissionBank::FissionBank(const CoreMesh &mesh) : mesh_(mesh)
+FissionBank::FissionBank(const CoreMesh &mesh)
+    : mesh_(mesh), total_fission_(0.0)
 {
     return;
 }
-- 
2.43.0


From 9f587a0ae3e3315152aa13e8c49939ed8867d47c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 02:13:40 +0000
Subject: [PATCH 44/83] fix: normalise the source entropy by the weight of the
 sites

---
 src/sweepers/mc/fission_bank.cpp | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/sweepers/mc/fission_bank.cpp b/src/sweepers/mc/fission_bank.cpp
index afbed1a..7e5b5b0 100644
--- a/src/sweepers/mc/fission_bank.cpp
+++ b/src/sweepers/mc/fission_bank.cpp
@@ -90,20 +90,22 @@ real_t FissionBank::shannon_entropy() const
 {
     real_t h = 0.0;
 
+    real_t total_weight = 0.0;
     VecF populations(mesh_.n_pin(), 0.0);
 
     for (const auto &p : sites_) {
         int icell = mesh_.coarse_cell_point(p.location_global);
-        if (icell < 0 || icell > (int)mesh_.n_pin()) {
+        if (icell < 0 || icell >= (int)mesh_.n_pin()) {
             std::stringstream msg;
             msg << "Couldnt locate particle: " << p << std::endl;
             throw EXCEPT(msg.str());
         }
         populations[icell] += p.weight;
+        total_weight += p.weight;
     }
 
     for (const auto &p : populations) {
-        real_t pj = p / sites_.size();
+        real_t pj = p / total_weight;
         if (pj > 0.0) {
             h -= pj * std::log2(pj);
         }
-- 
2.43.0


From 5f546e306c06c6a473b21c911bcb5f953ea2ab1f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 02:13:40 +0000
Subject: [PATCH 45/83] fix: report an empty fission bank when resizing

---
 src/sweepers/mc/fission_bank.cpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/sweepers/mc/fission_bank.cpp b/src/sweepers/mc/fission_bank.cpp
index 7e5b5b0..a09193d 100644
--- a/src/sweepers/mc/fission_bank.cpp
+++ b/src/sweepers/mc/fission_bank.cpp
@@ -116,7 +116,9 @@ real_t FissionBank::shannon_entropy() const
 
 void FissionBank::resize(unsigned int n, RNG_LCG &rng)
 {
-    assert(sites_.size() > 0);
+    if (sites_.empty()) {
+        throw EXCEPT("Cannot resize an empty fission bank");
+    }
 
     if (n > sites_.size()) {
         // Fission bank is too small. Randomly sample fission sites to
-- 
2.43.0


From 31e2831754f0343fd8232475c1e1f566f7996359 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 02:15:07 +0000
Subject: [PATCH 46/83] fix: do not locate points outside of the domain in a
 cell

---
 src/core/mesh.cpp | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/core/mesh.cpp b/src/core/mesh.cpp
index ffd1f2a..3400626 100644
--- a/src/core/mesh.cpp
+++ b/src/core/mesh.cpp
@@ -406,6 +406,12 @@ int Mesh::coarse_cell_point(Point3 p) const
     iy = (p.y == y_vec_.front()) ? 0 : iy;
     iz = (p.z == z_vec_.front()) ? 0 : iz;
 
+    // Points outside of the domain do not lie in any cell
+    if (ix < 0 || ix >= (int)nx_ || iy < 0 || iy >= (int)ny_ || iz < 0 ||
+        iz >= (int)nz_) {
+        return -1;
+    }
+
     /// \todo add z support
     return this->coarse_cell(Position(ix, iy, iz));
 }
-- 
2.43.0


From 9002178b6ff827ef59240ec493b8d3a6dc18e041 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 02:15:07 +0000
Subject: [PATCH 47/83] fix: refuse to write data that does not match its
 dimensions

---
 src/util/h5file.cpp | 14 ++++----------
 src/util/h5file.hpp | 19 ++++++++++++++-----
 2 files changed, 18 insertions(+), 15 deletions(-)

diff --git a/src/util/h5file.cpp b/src/util/h5file.cpp
index 65bf3e3..51066a8 100644
--- a/src/util/h5file.cpp
+++ b/src/util/h5file.cpp
@@ -131,16 +131,11 @@ void H5Node::write(std::string path, const VecF &data)
 
 void H5Node::write(std::string path, const VecF &data, VecI dims)
 {
-    hsize_t *dims_a = new hsize_t[dims.size()];
-    int size = 1;
-    for (unsigned i = 0; i < dims.size(); i++) {
-        dims_a[i] = dims[i];
-        size *= dims[i];
-    }
-    assert(size == data.size());
+    std::vector<hsize_t> dims_a(dims.begin(), dims.end());
+    check_size(dims, data.size());
 
     try {
-        H5::DataSpace space(dims.size(), dims_a);
+        H5::DataSpace space(dims.size(), dims_a.data());
         H5::DataSet dataset =
             node_->createDataSet(path, H5::PredType::NATIVE_DOUBLE, space);
         dataset.write(data.data(), H5::PredType::NATIVE_DOUBLE);
@@ -150,8 +145,6 @@ void H5Node::write(std::string path, const VecF &data, VecI dims)
         throw EXCEPT(msg.str().c_str());
     }
 
-    delete[] dims_a;
-
     return;
 }
 
@@ -160,6 +153,7 @@ void H5Node::write(std::string path, const ArrayB1 &data, VecI dims)
     if (!data.isStorageContiguous()) {
         throw EXCEPT("Data is not contiguous.");
     }
+    check_size(dims, data.size());
     std::vector<hsize_t> dims_a;
     dims_a.reserve(dims.size());
     for (const auto &v : dims) {
diff --git a/src/util/h5file.hpp b/src/util/h5file.hpp
index fa0cfc4..374dd66 100644
--- a/src/util/h5file.hpp
+++ b/src/util/h5file.hpp
@@ -386,15 +386,12 @@ public:
                         InputIterator last, VecI dims)
     {
         std::vector<hsize_t> dims_a;
-        int n = 1;
         for (auto di : dims) {
-            n *= di;
             dims_a.push_back(di);
         }
 
-        VecF d(n);
-        std::copy(first, last, d.begin());
-        assert((int)d.size() == n);
+        VecF d(first, last);
+        check_size(dims, d.size());
 
         try {
             H5::DataSpace space(dims.size(), dims_a.data());
@@ -412,6 +409,18 @@ public:
 private:
     H5Node(std::shared_ptr<H5::CommonFG> node_, H5Access access);
 
+    // Make sure that the passed dimensions describe the passed number of values
+    static void check_size(const VecI &dims, size_t size)
+    {
+        size_t n = 1;
+        for (auto di : dims) {
+            n *= di;
+        }
+        if (n != size) {
+            throw EXCEPT("Data size and dimensions disagree.");
+        }
+    }
+
     // Pointer to the file object. Null if not the root node of the file.
     std::shared_ptr<H5::H5File> file_;
     std::shared_ptr<H5::CommonFG> node_;
-- 
2.43.0


From ec2f4ecee4ff2eecdbae264332670f369f155c9e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 02:15:07 +0000
Subject: [PATCH 48/83] fix: refuse to read arrays as a single number

---
 src/util/h5file.hpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/util/h5file.hpp b/src/util/h5file.hpp
index 374dd66..9ad4769 100644
--- a/src/util/h5file.hpp
+++ b/src/util/h5file.hpp
@@ -361,6 +361,10 @@ public:
             throw EXCEPT(msg.str().c_str());
         }
 
+        if (dataspace.getSimpleExtentNpoints() != 1) {
+            throw EXCEPT("Dataset is not a single value.");
+        }
+
         try {
             dataset.read(&data, H5::PredType::NATIVE_INT);
         } catch (...) {
-- 
2.43.0


From f18b6304ef91ee076444cff0efe3ebafd087b481 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 02:16:24 +0000
Subject: [PATCH 49/83] fix: refuse HDF5 transfers of transposed, reversed and
 strided arrays

---
 src/util/h5file.cpp |  5 ++++-
 src/util/h5file.hpp | 19 +++++++++++++++++--
 2 files changed, 21 insertions(+), 3 deletions(-)

diff --git a/src/util/h5file.cpp b/src/util/h5file.cpp
index 51066a8..bc71844 100644
--- a/src/util/h5file.cpp
+++ b/src/util/h5file.cpp
@@ -150,7 +150,7 @@ void H5Node::write(std::string path, const VecF &data, VecI dims)
 
 void H5Node::write(std::string path, const ArrayB1 &data, VecI dims)
 {
-    if (!data.isStorageContiguous()) {
+    if (!is_row_major(data)) {
         throw EXCEPT("Data is not contiguous.");
     }
     check_size(dims, data.size());
@@ -197,6 +197,9 @@ void H5Node::read_1d(std::string path, ArrayB1 &data) const
             std::cerr << data.size() << " " << h5size << std::endl;
             throw EXCEPT("Incompatible data sizes");
         }
+        if (!is_row_major(data)) {
+            throw EXCEPT("Data is not contiguous.");
+        }
     }
 
     try {
diff --git a/src/util/h5file.hpp b/src/util/h5file.hpp
index 9ad4769..61f4335 100644
--- a/src/util/h5file.hpp
+++ b/src/util/h5file.hpp
@@ -167,7 +167,7 @@ public:
         // First, make sure that the data is contiguous in memory. We are
         // going to do a direct copy, using the data() pointer to the
         // beginning of the array, so this is crucial.
-        if (!data.isStorageContiguous()) {
+        if (!is_row_major(data)) {
             throw EXCEPT("Blitz data is not contiguous.");
         }
 
@@ -274,7 +274,7 @@ public:
     template <class BlitzArray>
     void read(std::string path, BlitzArray &data) const
     {
-        if ((data.size() > 0) && !data.isStorageContiguous()) {
+        if ((data.size() > 0) && !is_row_major(data)) {
             throw EXCEPT("Blitz data is not contiguous");
         }
 
@@ -413,6 +413,21 @@ public:
 private:
     H5Node(std::shared_ptr<H5::CommonFG> node_, H5Access access);
 
+    // Return whether the elements of an array lie in memory one after another,
+    // in the order that they have in the file
+    template <class BlitzArray>
+    static bool is_row_major(const BlitzArray &data)
+    {
+        int stride = 1;
+        for (int i = data.dimensions() - 1; i >= 0; i--) {
+            if ((data.extent(i) > 1) && (data.stride(i) != stride)) {
+                return false;
+            }
+            stride *= data.extent(i);
+        }
+        return true;
+    }
+
     // Make sure that the passed dimensions describe the passed number of values
     static void check_size(const VecI &dims, size_t size)
     {
-- 
2.43.0


From bc937ad7afae605a87b6acf10e2cde4e025c7dbe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 02:18:49 +0000
Subject: [PATCH 50/83] fix: only strip extensions from the file name of the
 input

---
 src/input_proc.cpp | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/input_proc.cpp b/src/input_proc.cpp
index ee90a4c..8ff828e 100644
--- a/src/input_proc.cpp
+++ b/src/input_proc.cpp
@@ -40,6 +40,12 @@ std::string strip_extension(std::string input)
 {
     std::string ret = input;
     size_t pos      = ret.rfind(".");
+    size_t slash    = ret.rfind("/");
+    // Only the last component of the path has an extension
+    if (pos != std::string::npos && slash != std::string::npos &&
+        pos < slash) {
+        return ret;
+    }
     return ret.substr(0, pos);
 }
 
-- 
2.43.0


From 10c94d6414de8b813090852a07b1be572cc2d63c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 02:28:45 +0000
Subject: [PATCH 51/83] fix: use 64 bits for the random stream offset of a
 particle

---
 src/sweepers/mc/particle_pusher.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/sweepers/mc/particle_pusher.cpp b/src/sweepers/mc/particle_pusher.cpp
index b507b7b..65b286d 100644
--- a/src/sweepers/mc/particle_pusher.cpp
+++ b/src/sweepers/mc/particle_pusher.cpp
@@ -168,7 +168,7 @@ void ParticlePusher::simulate(Particle p, bool tally)
     bool print = print_particles_;
 
     RNG.set_seed(seed_);
-    RNG.jump_ahead((p.id + id_offset_) * 10000);
+    RNG.jump_ahead(((uint64_t)p.id + id_offset_) * 10000);
 
     // Register this particle with the tallies
     k_tally_tl_.add_weight(p.weight);
-- 
2.43.0


From d9cb7253fef77be9a4d2467245cc28b0ce32162f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 02:31:28 +0000
Subject: [PATCH 52/83] fix: move particles along their direction when they
 cross a ring or line inside of a pin

---
 src/sweepers/mc/particle.hpp        | 30 ++++++++++++++++++++---------
 src/sweepers/mc/particle_pusher.cpp |  2 ++
 2 files changed, 23 insertions(+), 9 deletions(-)

diff --git a/src/sweepers/mc/particle.hpp b/src/sweepers/mc/particle.hpp
index cdabee4..e02426a 100644
--- a/src/sweepers/mc/particle.hpp
+++ b/src/sweepers/mc/particle.hpp
@@ -101,15 +101,27 @@ public:
      */
     void move(real_t d)
     {
-        location.x += (d + BUMP) * direction.ox + BUMP * sgn(direction.ox);
-        location.y += (d + BUMP) * direction.oy + BUMP * sgn(direction.oy);
-
-        location_global.x +=
-            (d + BUMP) * direction.ox + BUMP * sgn(direction.ox);
-        location_global.y +=
-            (d + BUMP) * direction.oy + BUMP * sgn(direction.oy);
-        location_global.z +=
-            (d + BUMP) * direction.oz + BUMP * sgn(direction.oz);
+        location.x += (d + BUMP) * direction.ox;
+        location.y += (d + BUMP) * direction.oy;
+
+        location_global.x += (d + BUMP) * direction.ox;
+        location_global.y += (d + BUMP) * direction.oy;
+        location_global.z += (d + BUMP) * direction.oz;
+        return;
+    }
+
+    /**
+     * \brief Nudge the \ref Particle along each axis, to make sure that it is
+     * across an axis-aligned boundary
+     */
+    void nudge()
+    {
+        location.x += BUMP * sgn(direction.ox);
+        location.y += BUMP * sgn(direction.oy);
+
+        location_global.x += BUMP * sgn(direction.ox);
+        location_global.y += BUMP * sgn(direction.oy);
+        location_global.z += BUMP * sgn(direction.oz);
         return;
     }
 
diff --git a/src/sweepers/mc/particle_pusher.cpp b/src/sweepers/mc/particle_pusher.cpp
index 65b286d..ee0b924 100644
--- a/src/sweepers/mc/particle_pusher.cpp
+++ b/src/sweepers/mc/particle_pusher.cpp
@@ -275,6 +275,7 @@ void ParticlePusher::simulate(Particle p, bool tally)
                 // Regardless of what happens, move the particle
                 p.coincident = -1;
                 p.move(d_to_surf.first);
+                p.nudge();
 
                 if (print) {
                     std::cout << "particle after move to surf:" << std::endl;
@@ -312,6 +313,7 @@ void ParticlePusher::simulate(Particle p, bool tally)
 
                 if (reflected) {
                     p.move(BUMP);
+                    p.nudge();
                     if (print) {
                         std::cout << "Particle after reflection and move back:"
                              << std::endl;
-- 
2.43.0


From 06aad805dded9bf00f07e372be1a9dd6cc4be3e9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 02:32:50 +0000
Subject: [PATCH 53/83] fix: treat internal surfaces that meet the pin boundary
 as a boundary crossing

---
 src/sweepers/mc/particle_pusher.cpp | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/sweepers/mc/particle_pusher.cpp b/src/sweepers/mc/particle_pusher.cpp
index ee0b924..6968298 100644
--- a/src/sweepers/mc/particle_pusher.cpp
+++ b/src/sweepers/mc/particle_pusher.cpp
@@ -223,9 +223,10 @@ void ParticlePusher::simulate(Particle p, bool tally)
         }
         // Determine distance to plane boundaries. If it is less than the
         // distance to surface, use it as the distance to surf and force a pin
-        // intersection
+        // intersection. The same goes for internal surfaces so close to the
+        // boundary that crossing them would take the particle out of the pin.
         real_t d_to_pin = distance_to_pin(location_info.pin_boundary, p);
-        if (d_to_pin < d_to_surf.first) {
+        if (d_to_pin < d_to_surf.first + 2.0 * BUMP) {
             d_to_surf.first  = d_to_pin;
             d_to_surf.second = true;
         }
-- 
2.43.0


From 1ee27ef4dcbc3ffe0f31acc6afd752a786941a80 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 02:33:08 +0000
Subject: [PATCH 54/83] fix: handle all boundaries when a particle is reflected
 in a corner

---
 src/sweepers/mc/particle_pusher.cpp | 72 +++++++++++++++--------------
 1 file changed, 38 insertions(+), 34 deletions(-)

diff --git a/src/sweepers/mc/particle_pusher.cpp b/src/sweepers/mc/particle_pusher.cpp
index 6968298..3d2f269 100644
--- a/src/sweepers/mc/particle_pusher.cpp
+++ b/src/sweepers/mc/particle_pusher.cpp
@@ -283,44 +283,48 @@ void ParticlePusher::simulate(Particle p, bool tally)
                     std::cout << p << std::endl;
                 }
 
-                // Check for domain boundary crossing
-                auto bound_surf =
-                    mesh_.boundary_surface(p.location_global, p.direction);
-                bool reflected = false;
-                for (const auto &b : bound_surf) {
-                    if (print) {
-                        std::cout << b << std::endl;
-                    }
-                    if ((b != Surface::INTERNAL) && (p.alive)) {
-                        // We are exiting a domain boundary. Handle the boundary
-                        // condition.
-                        auto bc = mesh_.boundary_condition(b);
-                        switch (bc) {
-                        case Boundary::REFLECT:
-                            // Move the particle back into the domain so it's
-                            // not floating in limbo
-                            reflected = true;
-                            p.direction.reflect(b);
-                            break;
-                        case Boundary::VACUUM:
-                            // Just kill the thing
-                            p.alive = false;
-                            break;
-                        default:
-                            throw EXCEPT("Unsupported boundary condition");
+                // Check for domain boundary crossing. Repeat after a reflection;
+                // close to a corner it can lead across another boundary
+                bool reflected;
+                do {
+                    reflected = false;
+                    auto bound_surf =
+                        mesh_.boundary_surface(p.location_global, p.direction);
+                    for (const auto &b : bound_surf) {
+                        if (print) {
+                            std::cout << b << std::endl;
+                        }
+                        if ((b != Surface::INTERNAL) && (p.alive)) {
+                            // We are exiting a domain boundary. Handle the boundary
+                            // condition.
+                            auto bc = mesh_.boundary_condition(b);
+                            switch (bc) {
+                            case Boundary::REFLECT:
+                                // Move the particle back into the domain so it's
+                                // not floating in limbo
+                                reflected = true;
+                                p.direction.reflect(b);
+                                break;
+                            case Boundary::VACUUM:
+                                // Just kill the thing
+                                p.alive = false;
+                                break;
+                            default:
+                                throw EXCEPT("Unsupported boundary condition");
+                            }
                         }
                     }
-                }
 
-                if (reflected) {
-                    p.move(BUMP);
-                    p.nudge();
-                    if (print) {
-                        std::cout << "Particle after reflection and move back:"
-                             << std::endl;
-                        std::cout << p << std::endl;
+                    if (reflected) {
+                        p.move(BUMP);
+                        p.nudge();
+                        if (print) {
+                            std::cout << "Particle after reflection and move back:"
+                                 << std::endl;
+                            std::cout << p << std::endl;
+                        }
                     }
-                }
+                } while (reflected);
 
                 // If the particle is still alive, relocate it
                 if (p.alive) {
-- 
2.43.0


From 3073ce1a54e72b9fe20c377f00c5f2eaed68ad4e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 02:59:37 +0000
Subject: [PATCH 55/83] fix: use one tolerance to decide whether a point lies
 on a ring

---
 src/core/pin_mesh_cyl.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/core/pin_mesh_cyl.cpp b/src/core/pin_mesh_cyl.cpp
index cd4a1d6..db4c9bb 100644
--- a/src/core/pin_mesh_cyl.cpp
+++ b/src/core/pin_mesh_cyl.cpp
@@ -283,7 +283,7 @@ int PinMesh_Cyl::find_reg(Point2 p, Direction dir) const
     // lie on one of the rings, the index 'ir' will be that of the ring it lies
     // on. Therefore, in that case, we with to increment the index if the
     // direction is pointing to the exterior of the circle.
-    if (ir < (int)radii_.size() && fp_equiv_ulp(r, radii_[ir])) {
+    if (ir < (int)radii_.size() && !fuzzy_lt(r, radii_[ir])) {
         // Use a "dot product" of dir's direction cosines and the point. If its
         // negative, bump to the next smallest ring
         real_t dot = p.x * dir.ox + p.y * dir.oy;
-- 
2.43.0


From bb268def2c74a8aa2c69780b2fcd59d59f580ecd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 03:28:31 +0000
Subject: [PATCH 56/83] fix: read the external source as groups by regions

---
 src/core/source.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/core/source.cpp b/src/core/source.cpp
index 7900804..d0f577b 100644
--- a/src/core/source.cpp
+++ b/src/core/source.cpp
@@ -42,7 +42,7 @@ void Source::initialize_group(int ig)
 {
     if (has_external_) {
         for (int ireg = 0; ireg < (int)n_reg_; ireg++) {
-            source_1g_[ireg] = external_source_(ireg, ig);
+            source_1g_[ireg] = external_source_(ig, ireg);
         }
     }
     else {
-- 
2.43.0


From 2b7bdcfe976abcda0086819528a41ed8a30e8e85 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 03:28:32 +0000
Subject: [PATCH 57/83] fix: divide the transport source by the cross sections
 passed in

---
 src/core/source_isotropic.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/core/source_isotropic.cpp b/src/core/source_isotropic.cpp
index 2d3b205..7af564c 100644
--- a/src/core/source_isotropic.cpp
+++ b/src/core/source_isotropic.cpp
@@ -26,9 +26,9 @@ void SourceIsotropic::self_scatter(size_t ig, const ArrayB1 &xstr)
         for (auto &xsr : *xs_mesh_) {
             const ScatteringRow &scat_row = xsr.xsmacsc().to(ig);
             real_t xssc                   = scat_row[ig];
-            real_t r_fpi_tr               = 1.0 / (xsr.xsmactr(ig) * FPI);
             for (const int ireg : xsr.reg()) {
-                q_[ireg] = (source_1g_[ireg] + flux_1g(ireg) * xssc) * r_fpi_tr;
+                q_[ireg] = (source_1g_[ireg] + flux_1g(ireg) * xssc) /
+                           (xstr(ireg) * FPI);
             }
         }
     } else {
-- 
2.43.0


From b9862a1a88819daeec884e9380b947200b2dc895 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 03:28:32 +0000
Subject: [PATCH 58/83] fix: start leakage splitting from zero

---
 src/sweepers/moc/moc_sweeper.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/sweepers/moc/moc_sweeper.cpp b/src/sweepers/moc/moc_sweeper.cpp
index 45c9b2c..c3d0c04 100644
--- a/src/sweepers/moc/moc_sweeper.cpp
+++ b/src/sweepers/moc/moc_sweeper.cpp
@@ -119,6 +119,7 @@ MoCSweeper::MoCSweeper(const pugi::xml_node &input, const CoreMesh &mesh)
     allow_splitting_ = input.attribute("tl_splitting").as_bool(false);
     if (allow_splitting_) {
         split_.resize(n_reg_);
+        split_ = 0.0;
     }
 
     // Sanity-check the subplane parameters. We will operate on the assumption
-- 
2.43.0


From 36913bff6704f75be7ef9853056782fd87ac06bd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 03:30:41 +0000
Subject: [PATCH 59/83] fix: give grouped planes their own share of currents
 and surface fluxes

---
 src/sweepers/moc/moc_current_worker.hpp | 12 ++++++++----
 1 file changed, 8 insertions(+), 4 deletions(-)

diff --git a/src/sweepers/moc/moc_current_worker.hpp b/src/sweepers/moc/moc_current_worker.hpp
index 9aeb1e2..2ad301a 100644
--- a/src/sweepers/moc/moc_current_worker.hpp
+++ b/src/sweepers/moc/moc_current_worker.hpp
@@ -292,10 +292,14 @@ public:
                     int stt_in  = mesh_->plane_surf_xy_begin(ip);
                     int stp_in  = mesh_->plane_surf_end(ip);
 
-                    coarse_data_->current(blitz::Range(stt_out, stp_out),
-                                          group_) =
-                        coarse_data_->current(blitz::Range(stt_in, stp_in),
-                                              group_);
+                    // The weights used the height of plane ip
+                    real_t h = mesh_->dz(iz) / mesh_->dz(ip);
+                    blitz::Range out(stt_out, stp_out - 1);
+                    blitz::Range in(stt_in, stp_in - 1);
+                    coarse_data_->current(out, group_) =
+                        coarse_data_->current(in, group_) * h;
+                    coarse_data_->surface_flux(out, group_) =
+                        coarse_data_->surface_flux(in, group_) * h;
 
                     iz--;
                 }
-- 
2.43.0


From b8c66d7b8cf427e23e44d283417b01e4582eecd8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 03:38:48 +0000
Subject: [PATCH 60/83] fix: weight the surface fluxes of Sn sweeps

---
 src/sweepers/sn/sn_current_worker.hpp | 20 ++++++++++----------
 1 file changed, 10 insertions(+), 10 deletions(-)

diff --git a/src/sweepers/sn/sn_current_worker.hpp b/src/sweepers/sn/sn_current_worker.hpp
index 612d028..84409b3 100644
--- a/src/sweepers/sn/sn_current_worker.hpp
+++ b/src/sweepers/sn/sn_current_worker.hpp
@@ -89,7 +89,7 @@ public:
 #pragma omp atomic update
                 data_->current(surf, group) += ox * x[ny * iz + iy];
 #pragma omp atomic update
-                data_->surface_flux(surf, group) += x[ny * iz + iy];
+                data_->surface_flux(surf, group) += w * x[ny * iz + iy];
             }
         }
 
@@ -102,7 +102,7 @@ public:
 #pragma omp atomic update
                 data_->current(surf, group) += oy * y[nx * iz + ix];
 #pragma omp atomic update
-                data_->surface_flux(surf, group) += y[nx * iz + ix];
+                data_->surface_flux(surf, group) += w * y[nx * iz + ix];
             }
         }
 
@@ -115,7 +115,7 @@ public:
 #pragma omp atomic update
                 data_->current(surf, group) += oz * z[nx * iy + ix];
 #pragma omp atomic update
-                data_->surface_flux(surf, group) += z[nx * iy + ix];
+                data_->surface_flux(surf, group) += w * z[nx * iy + ix];
             }
         }
 
@@ -159,7 +159,7 @@ public:
 #pragma omp atomic update
             data_->current(surf, group) += ox * x[iy];
 #pragma omp atomic update
-            data_->surface_flux(surf, group) += x[iy];
+            data_->surface_flux(surf, group) += w * x[iy];
         }
 
         // Y-normal
@@ -170,7 +170,7 @@ public:
 #pragma omp atomic update
             data_->current(surf, group) += oy * y[ix];
 #pragma omp atomic update
-            data_->surface_flux(surf, group) += y[ix];
+            data_->surface_flux(surf, group) += w * y[ix];
         }
 
         return;
@@ -199,7 +199,7 @@ public:
 #pragma omp atomic update
             data_->current(surf, group) += psi_x * ox;
 #pragma omp atomic update
-            data_->surface_flux(surf, group) += psi_x;
+            data_->surface_flux(surf, group) += w * psi_x;
         }
 
         // Y-normal
@@ -208,7 +208,7 @@ public:
 #pragma omp atomic update
             data_->current(surf, group) += psi_y * oy;
 #pragma omp atomic update
-            data_->surface_flux(surf, group) += psi_y;
+            data_->surface_flux(surf, group) += w * psi_y;
         }
 
         // Z-normal
@@ -217,7 +217,7 @@ public:
 #pragma omp atomic update
             data_->current(surf, group) += psi_z * oz;
 #pragma omp atomic update
-            data_->surface_flux(surf, group) += psi_z;
+            data_->surface_flux(surf, group) += w * psi_z;
         }
 
         return;
@@ -244,7 +244,7 @@ public:
 #pragma omp atomic update
             data_->current(surf, group) += psi_x * ox;
 #pragma omp atomic update
-            data_->surface_flux(surf, group) += psi_x;
+            data_->surface_flux(surf, group) += w * psi_x;
         }
 
         // Y-normal
@@ -253,7 +253,7 @@ public:
 #pragma omp atomic update
             data_->current(surf, group) += psi_y * oy;
 #pragma omp atomic update
-            data_->surface_flux(surf, group) += psi_y;
+            data_->surface_flux(surf, group) += w * psi_y;
         }
 
         return;
-- 
2.43.0


From 3364cdf276ce1a7314ecd3082d46dbe16129b63a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 03:38:48 +0000
Subject: [PATCH 61/83] fix: balance the cells of the multiple-balance axial
 scheme

---
 src/sweepers/cmdo/sn_sweeper_cdd_mb.hpp | 6 ++----
 1 file changed, 2 insertions(+), 4 deletions(-)

diff --git a/src/sweepers/cmdo/sn_sweeper_cdd_mb.hpp b/src/sweepers/cmdo/sn_sweeper_cdd_mb.hpp
index c6a5afc..9ed4951 100644
--- a/src/sweepers/cmdo/sn_sweeper_cdd_mb.hpp
+++ b/src/sweepers/cmdo/sn_sweeper_cdd_mb.hpp
@@ -42,8 +42,6 @@ public:
                     real_t xstr, int i, const ThreadState &t_state) const
     {
         int ix    = i % mesh_.nx();
-        int iz    = i % mesh_.nx() * mesh_.ny();
-        real_t dz = mesh_.dz(iz);
         int ia = t_state.macroplane * this->plane_size_ + i % this->plane_size_;
         real_t tx = t_state.ox / mesh_.dx(ix);
 
@@ -56,11 +54,11 @@ public:
         real_t gx = 0.5;//ax * b;
         real_t gy = 0.5;//ay * b;
 
-        real_t psi = q - (dz * t_state.oz * q) / (2.0 * t_state.tz + xstr) +
+        real_t psi = q - (t_state.tz * q) / (2.0 * t_state.tz + xstr) +
                      2.0 * (tx * flux_x + t_state.ty * flux_y) +
                      t_state.tz * flux_z;
         psi /= tx / gx + t_state.ty / gy +
-               (t_state.oz * t_state.oz) / (t_state.tz + 0.5 * xstr) + xstr;
+               (t_state.tz * t_state.tz) / (t_state.tz + 0.5 * xstr) + xstr;
 
         flux_x = psi / gx - flux_x;
         flux_y = psi / gy - flux_y;
-- 
2.43.0


From ea8eb954b523a7019c6017b0cbb1fbf1019a0e71 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 03:47:19 +0000
Subject: [PATCH 62/83] fix: weight of the cell at a lower vacuum boundary in
 CMFD

---
 src/core/cmfd.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/core/cmfd.cpp b/src/core/cmfd.cpp
index ab2c243..5b30497 100644
--- a/src/core/cmfd.cpp
+++ b/src/core/cmfd.cpp
@@ -463,7 +463,7 @@ void CMFD::setup_solve()
             // the convention that if possible the bound cell is the one to
             // the "left" of the surface. When such a cell is not present
             // (domain boundary), the cell is to the "right"
-            real_t stil = (diffusivity_1 > 0.0)
+            real_t stil = (cells.first >= 0)
                               ? diffusivity_1 / (diffusivity_1 + diffusivity_2)
                               : diffusivity_2 / (diffusivity_1 + diffusivity_2);
 
-- 
2.43.0


From 215b5efa95d6fb671a41e810006a97d54a9a691f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 03:47:19 +0000
Subject: [PATCH 63/83] fix: store axial CMFD currents of grouped planes on
 their own faces

---
 src/core/cmfd.cpp | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/src/core/cmfd.cpp b/src/core/cmfd.cpp
index 5b30497..221fed0 100644
--- a/src/core/cmfd.cpp
+++ b/src/core/cmfd.cpp
@@ -626,9 +626,16 @@ void CMFD::store_currents()
                     int stp_coarse = mesh_.plane_surf_xy_begin(mplane) - 1;
                     coarse_data_.current(blitz::Range(stt_fine, stp_fine), ig) =
                         current_1g_(blitz::Range(stt_coarse, stp_coarse));
+                    current_mplane = mplane;
                 }
             }
-
+            int n_mplanes  = fine_mesh_->n_macroplanes();
+            int stt_fine   = fine_mesh_->plane_surf_begin(nz);
+            int stp_fine   = fine_mesh_->plane_surf_xy_begin(nz) - 1;
+            int stt_coarse = mesh_.plane_surf_begin(n_mplanes);
+            int stp_coarse = mesh_.plane_surf_xy_begin(n_mplanes) - 1;
+            coarse_data_.current(blitz::Range(stt_fine, stp_fine), ig) =
+                current_1g_(blitz::Range(stt_coarse, stp_coarse));
         } else {
             coarse_data_.current(blitz::Range::all(), ig) = current_1g_;
         }
-- 
2.43.0


From fda92f9a17a0ecf7a04fd3ca7699b81bd0ceacad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 03:50:26 +0000
Subject: [PATCH 64/83] fix: use the fine mesh faces for CMFD surface fluxes
 and partial currents

---
 src/core/cmfd.cpp | 38 ++++++++++++++++++++++++++++++++++----
 src/core/cmfd.hpp |  3 +++
 2 files changed, 37 insertions(+), 4 deletions(-)

diff --git a/src/core/cmfd.cpp b/src/core/cmfd.cpp
index 221fed0..7e1f5a1 100644
--- a/src/core/cmfd.cpp
+++ b/src/core/cmfd.cpp
@@ -73,6 +73,7 @@ CMFD::CMFD(const pugi::xml_node &input, const CoreMesh *mesh,
       n_group_(xsmesh_.n_group()),
       coarse_data_(*mesh, xsmesh_.n_group()),
       current_1g_(n_surf_),
+      fine_surf_(n_surf_),
       is_enabled_(true),
       fs_(n_cell_),
       fs_old_(n_cell_),
@@ -95,6 +96,28 @@ CMFD::CMFD(const pugi::xml_node &input, const CoreMesh *mesh,
     // Check input attributes
     validate_input(input, recognized_attributes);
 
+    // Figure out where the surfaces of the CMFD mesh are on the fine mesh
+    int prev_mplane = -1;
+    for (int iz = 0; iz <= (int)fine_mesh_->nz(); iz++) {
+        bool top   = iz == (int)fine_mesh_->nz();
+        int mplane = top ? mesh_.nz() : fine_mesh_->macroplane_index(iz);
+        int offset =
+            fine_mesh_->plane_surf_begin(iz) - mesh_.plane_surf_begin(mplane);
+        int xy = mesh_.plane_surf_xy_begin(mplane);
+        if (mplane != prev_mplane) {
+            for (int is = mesh_.plane_surf_begin(mplane); is < xy; is++) {
+                fine_surf_[is].emplace_back(is + offset, 1.0);
+            }
+        }
+        if (!top) {
+            real_t fraction = fine_mesh_->dz(iz) / mesh_.dz(mplane);
+            for (int is = xy; is < mesh_.plane_surf_end(mplane); is++) {
+                fine_surf_[is].emplace_back(is + offset, fraction);
+            }
+        }
+        prev_mplane = mplane;
+    }
+
     // Set up the structure of the matrix
     std::vector<T> structure;
     for (int i = 0; i < n_cell_; i++) {
@@ -476,7 +499,11 @@ void CMFD::setup_solve()
                                  : coarse_data_.has_radial_data();
             if (have_data) {
                 real_t j        = current_1g_(is);
-                real_t sfc_flux = coarse_data_.surface_flux(is, group);
+                real_t sfc_flux = 0.0;
+                for (const auto &fine : fine_surf_[is]) {
+                    sfc_flux += fine.second *
+                                coarse_data_.surface_flux(fine.first, group);
+                }
                 real_t flux_l   = cells.first >= 0
                                     ? coarse_data_.flux(cells.first, group)
                                     : 0.0;
@@ -593,10 +620,13 @@ void CMFD::store_currents()
                           s_hat * (flux_l + flux_r)
                     : s_tilde * flux_r + s_hat * (flux_l + flux_r);
 
-            surface_flux_1g(is) = surface_flux;
+            for (const auto &fine : fine_surf_[is]) {
+                surface_flux_1g(fine.first) = surface_flux;
 
-            partial_1g(is) = {{0.25 * surface_flux + 0.5 * current,
-                               0.25 * surface_flux - 0.5 * current}};
+                partial_1g(fine.first) = {
+                    {0.25 * surface_flux + 0.5 * current,
+                     0.25 * surface_flux - 0.5 * current}};
+            }
         } // surfaces
 
         // apply the CMFD mesh currents to the CoarseData object
diff --git a/src/core/cmfd.hpp b/src/core/cmfd.hpp
index 939a459..1dba7aa 100644
--- a/src/core/cmfd.hpp
+++ b/src/core/cmfd.hpp
@@ -203,6 +203,9 @@ norm = std::sqrt(norm)/(n_cell_*n_group_);
     CoarseData coarse_data_;
     // Scratch space for manipulating currents on the CMFD mesh
     ArrayB1 current_1g_;
+    // Fine-mesh surfaces making up each surface of the CMFD mesh, along with
+    // the fraction of its height
+    std::vector<std::vector<std::pair<int, real_t>>> fine_surf_;
     bool is_enabled_;
 
     // Single-group fission source
-- 
2.43.0


From ab682e87bfcd8ab686a712600f7e930c2559269f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 03:51:07 +0000
Subject: [PATCH 65/83] fix: write CMFD currents of the fine mesh

---
 src/core/cmfd.cpp | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/core/cmfd.cpp b/src/core/cmfd.cpp
index 7e1f5a1..6192c57 100644
--- a/src/core/cmfd.cpp
+++ b/src/core/cmfd.cpp
@@ -708,10 +708,10 @@ void CMFD::output(H5Node &node) const
         return;
     }
 
-    auto dims = mesh_.dimensions();
+    auto dims = fine_mesh_->dimensions();
     std::reverse(dims.begin(), dims.end());
 
-    ArrayB1 surf_current(mesh_.n_pin());
+    ArrayB1 surf_current(fine_mesh_->n_pin());
 
     auto current_g = node.create_group("current");
     current_g.write("source", coarse_data_.source());
@@ -723,9 +723,9 @@ void CMFD::output(H5Node &node) const
             std::stringstream s_str;
             s_str << surf;
 
-            for (int i = 0; i < mesh_.n_pin(); ++i) {
+            for (int i = 0; i < (int)fine_mesh_->n_pin(); ++i) {
                 surf_current(i) =
-                    coarse_data_.current(mesh_.coarse_surf(i, surf), ig);
+                    coarse_data_.current(fine_mesh_->coarse_surf(i, surf), ig);
             }
             group_g.write(s_str.str(), surf_current, dims);
         }
-- 
2.43.0


From 289e9e0b3179a51c4a73cb848e369933edc81e1c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 03:54:55 +0000
Subject: [PATCH 66/83] fix: CMFD face fluxes next to cells without flux

---
 src/core/cmfd.cpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/core/cmfd.cpp b/src/core/cmfd.cpp
index 6192c57..0977421 100644
--- a/src/core/cmfd.cpp
+++ b/src/core/cmfd.cpp
@@ -520,6 +520,9 @@ void CMFD::setup_solve()
                                    (1.0 - s_tilde(is)) * flux_r) /
                                       (flux_l + flux_r)
                                 : (sfc_flux - s_tilde(is) * flux_r) / (flux_r);
+                if (!std::isfinite(s_hat(is))) {
+                    s_hat(is) = 0.0;
+                }
             } else {
                 d_hat(is) = 0.0;
                 s_hat(is) = 0.0;
-- 
2.43.0


From e8d383fcc8ca7dfcf7cb426ab86397571f98d33a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 04:12:24 +0000
Subject: [PATCH 67/83] fix: keep the flux homogenised over macroplanes when
 setting MoC pin fluxes

---
 src/sweepers/moc/moc_sweeper.cpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/sweepers/moc/moc_sweeper.cpp b/src/sweepers/moc/moc_sweeper.cpp
index c3d0c04..ed8013c 100644
--- a/src/sweepers/moc/moc_sweeper.cpp
+++ b/src/sweepers/moc/moc_sweeper.cpp
@@ -395,7 +395,9 @@ real_t MoCSweeper::set_pin_flux_1g(int group, const ArrayB1 &pin_flux,
             plane_pin_flux(i) /= mesh_.macroplane_heights()[iz];
         }
     case MeshTreatment::PIN_PLANE: {
-        plane_pin_flux = pin_flux;
+        if (treatment == MeshTreatment::PIN_PLANE) {
+            plane_pin_flux = pin_flux;
+        }
         int iz       = 0;
         int ireg     = 0;
         for (const auto &mplane : mesh_.macroplanes()) {
-- 
2.43.0


From cccf3b2804bf83b77a077fd32bd655eaabd802ff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 04:12:24 +0000
Subject: [PATCH 68/83] fix: compare each Sn pin flux with its own old value

---
 src/sweepers/sn/sn_sweeper.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/sweepers/sn/sn_sweeper.hpp b/src/sweepers/sn/sn_sweeper.hpp
index 41981d0..410ceb8 100644
--- a/src/sweepers/sn/sn_sweeper.hpp
+++ b/src/sweepers/sn/sn_sweeper.hpp
@@ -110,7 +110,7 @@ public:
         case MeshTreatment::PIN: {
             int i = 0;
             for (auto &v : pin_flux) {
-                real_t e = flux_(1, group) - v;
+                real_t e = flux_(i, group) - v;
                 resid += e * e;
                 flux_((int)i, (int)group) = v;
                 i++;
-- 
2.43.0


From fc13b3cb2d0738e7e612bd6d82f6be62b99bc80a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 04:18:47 +0000
Subject: [PATCH 69/83] fix: set the flux of Sn cells that have none to the
 given value

---
 src/sweepers/sn/sn_sweeper.hpp | 14 ++++++++------
 1 file changed, 8 insertions(+), 6 deletions(-)

diff --git a/src/sweepers/sn/sn_sweeper.hpp b/src/sweepers/sn/sn_sweeper.hpp
index 410ceb8..8891c47 100644
--- a/src/sweepers/sn/sn_sweeper.hpp
+++ b/src/sweepers/sn/sn_sweeper.hpp
@@ -122,7 +122,6 @@ public:
             ArrayB1 plane_pin_flux(mesh_.n_reg(MeshTreatment::PIN_PLANE));
             this->get_pin_flux_1g(group, plane_pin_flux,
                                   MeshTreatment::PIN_PLANE);
-            plane_pin_flux /= pin_flux;
 
             int n_per_plane = mesh_.nx() * mesh_.ny();
             int mplane_stt  = 0;
@@ -131,11 +130,14 @@ public:
                 mplane_stp = mplane_stt + n_per_plane;
 
                 for (int iz = mplane.iz_min; iz <= mplane.iz_max; iz++) {
-                    flux_(blitz::Range(mesh_.plane_cell_begin(iz),
-                                       mesh_.plane_cell_end(iz) - 1),
-                          group) /=
-                        plane_pin_flux(
-                            blitz::Range(mplane_stt, mplane_stp - 1));
+                    for (int i = 0; i < n_per_plane; i++) {
+                        real_t &flux =
+                            flux_((int)mesh_.plane_cell_begin(iz) + i, group);
+                        real_t old = plane_pin_flux(mplane_stt + i);
+                        real_t now = pin_flux(mplane_stt + i);
+                        // There is no shape to keep if there was no flux
+                        flux = (old != 0.0) ? flux * (now / old) : now;
+                    }
                 }
 
                 mplane_stt = mplane_stp;
-- 
2.43.0


From bbee483749f1ee78e87c2bd6eb0c168f769a6ceb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 04:41:07 +0000
Subject: [PATCH 70/83] fix: add backward rays to the 2D3D MoC surface fluxes

---
 src/sweepers/cmdo/correction_worker.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/sweepers/cmdo/correction_worker.hpp b/src/sweepers/cmdo/correction_worker.hpp
index 039c9bd..a696702 100644
--- a/src/sweepers/cmdo/correction_worker.hpp
+++ b/src/sweepers/cmdo/correction_worker.hpp
@@ -133,7 +133,7 @@ public:
                 psi2[iseg_bw] * current_weights_[norm_bw];
             surface_flux(surf_fw + surf_offset_) +=
                 psi1[iseg_fw] * flux_weights_[norm_fw];
-            surface_flux(surf_bw + surf_offset_) -=
+            surface_flux(surf_bw + surf_offset_) +=
                 psi2[iseg_bw] * flux_weights_[norm_bw];
 
             surf_sum_(surf_fw * 2 + 0) += psi1[iseg_fw];
@@ -191,7 +191,7 @@ public:
                     surf_bw = mesh_->coarse_surf(cell_bw, crd->bw);
                     current(surf_bw + surf_offset_) -=
                         psi2[iseg_bw] * current_weights_[norm_bw];
-                    surface_flux(surf_bw + surf_offset_) -=
+                    surface_flux(surf_bw + surf_offset_) +=
                         psi2[iseg_bw] * flux_weights_[norm_bw];
                     surf_sum_(surf_bw * 2 + 1) += psi2[iseg_bw];
                     surf_norm_(surf_bw * 2 + 1) += 1.0;
-- 
2.43.0


From 970c6033fb0a9799cfb78afcf0c22c763471421a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 04:41:56 +0000
Subject: [PATCH 71/83] fix: apply correction data without plane bounds to all
 planes

---
 src/sweepers/cmdo/correction_data.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/sweepers/cmdo/correction_data.cpp b/src/sweepers/cmdo/correction_data.cpp
index 4e0691e..a8dcd46 100644
--- a/src/sweepers/cmdo/correction_data.cpp
+++ b/src/sweepers/cmdo/correction_data.cpp
@@ -195,7 +195,7 @@ void CorrectionData::read_data_multi(const pugi::xml_node &input)
 
     for (auto data = input.child("data"); data;
          data      = data.next_sibling("data")) {
-        int top_plane = 0;
+        int top_plane = np - 1;
         int bot_plane = 0;
         if (!data.attribute("top_plane").empty()) {
             top_plane = data.attribute("top_plane").as_int();
-- 
2.43.0


From 054143cd10185701e0deefc8a34b7560a9fb6b9d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 04:41:57 +0000
Subject: [PATCH 72/83] fix: reject correction data with the bottom plane above
 the top plane

---
 src/sweepers/cmdo/correction_data.cpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/sweepers/cmdo/correction_data.cpp b/src/sweepers/cmdo/correction_data.cpp
index a8dcd46..2c9e333 100644
--- a/src/sweepers/cmdo/correction_data.cpp
+++ b/src/sweepers/cmdo/correction_data.cpp
@@ -171,6 +171,9 @@ void CorrectionData::read_data_multi(const pugi::xml_node &input)
             if ((top_plane < 0) || (top_plane >= np)) {
                 throw EXCEPT("Invalid top_plane");
             }
+            if (bot_plane > top_plane) {
+                throw EXCEPT("bottom_plane is above top_plane");
+            }
 
             if (data.attribute("file").empty()) {
                 throw EXCEPT("No file specified.");
-- 
2.43.0


From cb460bb83eee48d6e7dbece9739f43319a890407 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 04:42:34 +0000
Subject: [PATCH 73/83] fix: read correction data of all planes from one file

---
 src/sweepers/cmdo/correction_data.cpp | 27 +++++++++++++++++++++------
 1 file changed, 21 insertions(+), 6 deletions(-)

diff --git a/src/sweepers/cmdo/correction_data.cpp b/src/sweepers/cmdo/correction_data.cpp
index 2c9e333..401790a 100644
--- a/src/sweepers/cmdo/correction_data.cpp
+++ b/src/sweepers/cmdo/correction_data.cpp
@@ -49,8 +49,8 @@ void CorrectionData::from_data(const pugi::xml_node &input)
         H5Node h5d(input.child("data").attribute("file").value(),
                    H5Access::READ);
         auto dims = h5d.dimensions("alpha_x/000/000");
-        if ((dims[2] == mesh_->nx()) && (dims[1] == mesh_->ny()) &&
-            ((int)dims[0] == np)) {
+        if ((dims.size() == 3) && (dims[2] == mesh_->nx()) &&
+            (dims[1] == mesh_->ny()) && ((int)dims[0] == np)) {
             single_file = true;
         }
     }
@@ -86,8 +86,23 @@ void CorrectionData::read_data_single(const pugi::xml_node &data,
 
     H5Node h5d(data.attribute("file").value(), H5Access::READ);
 
+    // A file either describes a single plane, which is applied to all of the
+    // planes in the range, or all of the planes of the core.
+    auto dims    = h5d.dimensions("/alpha_x/000/000");
+    int np       = mesh_->macroplanes().size();
+    bool whole   = (bottom_plane == 0) && (top_plane == np - 1);
+    int n_planes = dims.empty() ? 0 : dims[0];
+    if ((n_planes != 1) && !(whole && (n_planes == np))) {
+        throw EXCEPT("Incorrect number of planes in correction data");
+    }
+
     // allocate a single buffer to read our data into for each group/angle
-    ArrayB1 inbuf(nx_ * ny_);
+    ArrayB3 inbuf(n_planes, ny_, nx_);
+    auto plane_data = [&](int ip) {
+        int n = nx_ * ny_;
+        return ArrayB1(inbuf.data() + ((n_planes == 1) ? 0 : n * ip),
+                       blitz::shape(n), blitz::neverDeleteData);
+    };
 
     for (int ig = 0; ig < ngroup_; ig++) {
         for (int iang = 0; iang < nang_; iang++) {
@@ -105,7 +120,7 @@ void CorrectionData::read_data_single(const pugi::xml_node &data,
                     int stt = mesh_->plane_cell_begin(ip);
                     int stp = mesh_->plane_cell_end(ip) - 1;
                     alpha_(ig, iang, blitz::Range(stt, stp),
-                           (int)Normal::X_NORM) = inbuf;
+                           (int)Normal::X_NORM) = plane_data(ip);
                 }
             }
             // alpha y
@@ -122,7 +137,7 @@ void CorrectionData::read_data_single(const pugi::xml_node &data,
                     int stt = mesh_->plane_cell_begin(ip);
                     int stp = mesh_->plane_cell_end(ip) - 1;
                     alpha_(ig, iang, blitz::Range(stt, stp),
-                           (int)Normal::Y_NORM) = inbuf;
+                           (int)Normal::Y_NORM) = plane_data(ip);
                 }
             }
             // beta
@@ -138,7 +153,7 @@ void CorrectionData::read_data_single(const pugi::xml_node &data,
                 for (int ip = bottom_plane; ip <= top_plane; ip++) {
                     int stt = mesh_->plane_cell_begin(ip);
                     int stp = mesh_->plane_cell_end(ip) - 1;
-                    beta_(ig, iang, blitz::Range(stt, stp)) = inbuf;
+                    beta_(ig, iang, blitz::Range(stt, stp)) = plane_data(ip);
                 }
             }
         }
-- 
2.43.0


From 36d48dac933534b00f8055f499da0255e5b79c9c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 04:45:54 +0000
Subject: [PATCH 74/83] fix: project 2D3D MoC fluxes onto the Sn mesh of
 grouped planes

---
 src/sweepers/cmdo/plane_sweeper_2d3d.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/sweepers/cmdo/plane_sweeper_2d3d.cpp b/src/sweepers/cmdo/plane_sweeper_2d3d.cpp
index e8632ef..fed4f8e 100644
--- a/src/sweepers/cmdo/plane_sweeper_2d3d.cpp
+++ b/src/sweepers/cmdo/plane_sweeper_2d3d.cpp
@@ -172,7 +172,8 @@ void PlaneSweeper_2D3D::sweep(int group)
                                  MeshTreatment::PIN_PLANE);
 
     if (do_mocproject_) {
-        sn_sweeper_->set_pin_flux_1g(group, prev_moc_flux);
+        sn_sweeper_->set_pin_flux_1g(group, prev_moc_flux,
+                                     MeshTreatment::PIN_PLANE);
     }
 
     // Sn sweeper
-- 
2.43.0


From a57d2d2f49539befd0a5e9b82ff59f1df21773ab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 08:08:29 +0000
Subject: [PATCH 75/83] fix: survive interrupts before there is a solver and
 during output

---
 src/driver.cpp | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/src/driver.cpp b/src/driver.cpp
index da739a7..313e587 100644
--- a/src/driver.cpp
+++ b/src/driver.cpp
@@ -50,6 +50,9 @@ std::unique_ptr<InputProcessor> input_proc;
 // Generate output from the solver
 void generate_output()
 {
+    // Once started, the output is to be finished
+    std::signal(SIGINT, SIG_IGN);
+
     std::string out_name = input_proc->case_name();
     out_name.append(".h5");
     H5Node outfile(out_name, H5Access::WRITE);
@@ -93,7 +96,10 @@ void print_banner();
 void int_handler(int p)
 {
     std::cout << "Caught SIGINT. Bailing." << std::endl;
-    generate_output();
+    // There are no results before there is a solver
+    if (solver) {
+        generate_output();
+    }
     std::exit(EXIT_FAILURE);
 }
 
-- 
2.43.0


From 872ec04a10b5852250adfb0882a849f419e8e5f2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 08:08:29 +0000
Subject: [PATCH 76/83] fix: write Monte Carlo output before the first
 realization

---
 src/sweepers/mc/particle_pusher.cpp | 5 +++++
 src/sweepers/mc/tally_spatial.hpp   | 8 ++++++++
 2 files changed, 13 insertions(+)

diff --git a/src/sweepers/mc/particle_pusher.cpp b/src/sweepers/mc/particle_pusher.cpp
index 3d2f269..80d2986 100644
--- a/src/sweepers/mc/particle_pusher.cpp
+++ b/src/sweepers/mc/particle_pusher.cpp
@@ -404,6 +404,11 @@ void ParticlePusher::output(H5Node &node) const
     node.write("ng", n_group_);
     node.write("eubounds", xs_mesh_.eubounds(), VecI(1, n_group_));
 
+    // There is nothing to report before the first realization
+    if (pin_power_tally_.empty()) {
+        return;
+    }
+
     // Coarse flux tallies
     {
         ArrayB2 flux_mg(xs_mesh_.n_group(), mesh_.n_pin());
diff --git a/src/sweepers/mc/tally_spatial.hpp b/src/sweepers/mc/tally_spatial.hpp
index 952f4d9..b7bedd3 100644
--- a/src/sweepers/mc/tally_spatial.hpp
+++ b/src/sweepers/mc/tally_spatial.hpp
@@ -113,6 +113,14 @@ public:
         return;
     }
 
+    /**
+     * \brief Return whether there are no realizations in the tally yet
+     */
+    bool empty() const
+    {
+        return n_ == 0;
+    }
+
     /**
      * \brief Return the estimates for the tally mean and relative standard
      * deviation
-- 
2.43.0


From da3030b61da565d6c89426505303168aa75fc208 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 08:08:29 +0000
Subject: [PATCH 77/83] fix: refuse negative numbers of fission sites and boxes
 beyond the core

---
 src/sweepers/mc/fission_bank.cpp | 12 ++++++++++++
 1 file changed, 12 insertions(+)

diff --git a/src/sweepers/mc/fission_bank.cpp b/src/sweepers/mc/fission_bank.cpp
index a09193d..b8cd19f 100644
--- a/src/sweepers/mc/fission_bank.cpp
+++ b/src/sweepers/mc/fission_bank.cpp
@@ -19,6 +19,7 @@
 #include <iostream>
 #include "pugixml.hpp"
 #include "util/error.hpp"
+#include "util/fp_utils.hpp"
 
 namespace mocc {
 namespace mc {
@@ -46,6 +47,10 @@ FissionBank::FissionBank(const pugi::xml_node &input, int n,
         throw EXCEPT("Not all X, Y, Z bounds specified in fission_box");
     }
 
+    if (n < 0) {
+        throw EXCEPT("Invalid number of fission sites requested.");
+    }
+
     real_t x_min = input.attribute("x_min").as_double(0.0);
     real_t x_max = input.attribute("x_max").as_double(0.0);
     real_t y_min = input.attribute("y_min").as_double(0.0);
@@ -58,6 +63,13 @@ FissionBank::FissionBank(const pugi::xml_node &input, int n,
         throw EXCEPT("Invalid fission_box bounds specified.");
     }
 
+    // Sites need to be somewhere in the core
+    if (!(x_min >= -REAL_FUZZ && x_max <= mesh.hx_core() + REAL_FUZZ &&
+          y_min >= -REAL_FUZZ && y_max <= mesh.hy_core() + REAL_FUZZ &&
+          z_min >= -REAL_FUZZ && z_max <= mesh.z_divisions().back() + REAL_FUZZ)) {
+        throw EXCEPT("The fission_box extends beyond the core.");
+    }
+
     // See if we want to do a fissile region rejection (only accept fission
     // sites in fissile regions).
     bool fissile_rejection = input.attribute("fissile_rejection").as_bool(true);
-- 
2.43.0


From d672499dd6f1b5b640e4b8434b958145bdd82323 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 08:08:29 +0000
Subject: [PATCH 78/83] fix: refuse 2D3D options that cannot be used

---
 src/sweepers/cmdo/plane_sweeper_2d3d.cpp | 6 ++++++
 src/sweepers/cmdo/plane_sweeper_2d3d.hpp | 2 +-
 2 files changed, 7 insertions(+), 1 deletion(-)

diff --git a/src/sweepers/cmdo/plane_sweeper_2d3d.cpp b/src/sweepers/cmdo/plane_sweeper_2d3d.cpp
index fed4f8e..16a9bfd 100644
--- a/src/sweepers/cmdo/plane_sweeper_2d3d.cpp
+++ b/src/sweepers/cmdo/plane_sweeper_2d3d.cpp
@@ -392,12 +392,18 @@ void PlaneSweeper_2D3D::parse_options(const pugi::xml_node &input)
     }
     if (!input.attribute("moc_modulo").empty()) {
         moc_modulo_ = input.attribute("moc_modulo").as_int();
+        if (moc_modulo_ < 1) {
+            throw EXCEPT("Invalid moc_modulo specified.");
+        }
     }
     if (!input.attribute("preserve_sn_quadrature").empty()) {
         keep_sn_quad_ = input.attribute("preserve_sn_quadrature").as_bool();
     }
     if (!input.attribute("relax").empty()) {
         relax_ = input.attribute("relax").as_double(1.0);
+        if (!std::isfinite(relax_)) {
+            throw EXCEPT("Invalid relaxation factor specified.");
+        }
     }
     if (!input.attribute("discrepant_flux_update").empty()) {
         discrepant_flux_update_ =
diff --git a/src/sweepers/cmdo/plane_sweeper_2d3d.hpp b/src/sweepers/cmdo/plane_sweeper_2d3d.hpp
index a306a9c..3b11b5b 100644
--- a/src/sweepers/cmdo/plane_sweeper_2d3d.hpp
+++ b/src/sweepers/cmdo/plane_sweeper_2d3d.hpp
@@ -80,7 +80,7 @@ public:
 
         real_t diff = 0.0;
         if (discrepant_flux_update_) {
-            assert(false);
+            throw EXCEPT("The discrepant flux update is not implemented.");
             ArrayB1 moc_pin_flux(pin_flux.size());
             for (int i = 0; i < (int)moc_pin_flux.size(); i++) {
                 moc_pin_flux(i) =
-- 
2.43.0


From 95318704eca4e29bead5003f93f2b2c8d8607850 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 08:08:29 +0000
Subject: [PATCH 79/83] fix: refuse heights, angles and ray spacings that are
 not finite

---
 src/core/assembly.cpp       | 3 ++-
 src/core/geometry/angle.cpp | 6 +++---
 2 files changed, 5 insertions(+), 4 deletions(-)

diff --git a/src/core/assembly.cpp b/src/core/assembly.cpp
index 0457943..c620aab 100644
--- a/src/core/assembly.cpp
+++ b/src/core/assembly.cpp
@@ -17,6 +17,7 @@
 #include "assembly.hpp"
 
 #include <algorithm>
+#include <cmath>
 #include <iostream>
 #include <sstream>
 #include <string>
@@ -80,7 +81,7 @@ Assembly::Assembly(const pugi::xml_node &input,
     // Make sure that all of the plane heights make sense
     bool good_dz = dz_.size() == nz_;
     for (auto dz : dz_) {
-        good_dz = good_dz && (dz > 0.0);
+        good_dz = good_dz && (dz > 0.0) && std::isfinite(dz);
     }
     if (!good_dz) {
         std::stringstream msg;
diff --git a/src/core/geometry/angle.cpp b/src/core/geometry/angle.cpp
index 340519b..018fc21 100644
--- a/src/core/geometry/angle.cpp
+++ b/src/core/geometry/angle.cpp
@@ -34,7 +34,7 @@ Angle::Angle(const pugi::xml_node &input)
     // will throw an error.
 
     real_t weight = input.attribute("weight").as_double(0.0);
-    if (weight <= 0.0) {
+    if (!(weight > 0.0) || std::isinf(weight)) {
         throw EXCEPT("Invalid angle weight specified.");
     }
 
@@ -89,10 +89,10 @@ Angle::Angle(const pugi::xml_node &input)
         // vertical polar angles. Azimuthal angle is allowed to be zero, but
         // less than 2*pi, to avoid overlapping angles on the positive
         // x-axis.
-        if (theta <= -HPI || theta >= HPI) {
+        if (!(theta > -HPI && theta < HPI)) {
             throw EXCEPT("Invalid polar angle.");
         }
-        if ((alpha < 0.0) || (alpha >= TWOPI) || (alpha == 0.0) ||
+        if (!(alpha > 0.0 && alpha < TWOPI) ||
             (alpha == HPI) || (alpha == PI) || (alpha == 3.0 * HPI)) {
             throw EXCEPT("Invalid azimuthal angle.");
         }
-- 
2.43.0


From 8a11e63254fdeba410ef78f84e2849299b8ec574 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 08:08:44 +0000
Subject: [PATCH 80/83] fix: keep angles close to an axis off it, and refuse
 infinite ray spacings

---
 src/sweepers/moc/ray_data.cpp | 14 ++++++++++----
 1 file changed, 10 insertions(+), 4 deletions(-)

diff --git a/src/sweepers/moc/ray_data.cpp b/src/sweepers/moc/ray_data.cpp
index f4b096c..308b001 100644
--- a/src/sweepers/moc/ray_data.cpp
+++ b/src/sweepers/moc/ray_data.cpp
@@ -78,7 +78,7 @@ RayData::RayData(const pugi::xml_node &input, const AngularQuadrature &ang_quad,
 
     // Get the optimal ray spacing
     real_t opt_spacing = input.attribute("spacing").as_float(-1.0);
-    if (opt_spacing <= 0.0) {
+    if (!(opt_spacing > 0.0) || std::isinf(opt_spacing)) {
         throw EXCEPT("Failed to read valid ray spacing.");
     }
 
@@ -503,9 +503,15 @@ std::pair<int, int> RayData::modularize_angle(Angle ang, real_t hx, real_t hy,
         bool flip    = ratio > 1.0;
         real_t m     = flip ? 1.0 / ratio : ratio;
         // Determine the best rational approximation of the ratio.
-        auto Nxy = rational_approximation(m, 0.002, 0);
-        Nx       = Nxy.first;
-        Ny       = Nxy.second;
+        const real_t tolerance = 0.002;
+        auto Nxy               = rational_approximation(m, tolerance, 0);
+        Nx                     = Nxy.first;
+        Ny                     = Nxy.second;
+        // Angles close to an axis should still not end up on it
+        if (Nx == 0) {
+            Nx = 1;
+            Ny = std::lround(1.0 / tolerance);
+        }
         if (flip) {
             std::swap(Nx, Ny);
         }
-- 
2.43.0


From d5789da693f3aa150ae97694958354045eb3ec2c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 08:17:51 +0000
Subject: [PATCH 81/83] fix: give up on eigenvalues and errors that overflow

---
 src/solvers/eigen_solver.cpp | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/solvers/eigen_solver.cpp b/src/solvers/eigen_solver.cpp
index 89e9f1c..c6c11dd 100644
--- a/src/solvers/eigen_solver.cpp
+++ b/src/solvers/eigen_solver.cpp
@@ -16,6 +16,7 @@
 
 #include "eigen_solver.hpp"
 
+#include <cmath>
 #include <iomanip>
 #include "pugixml.hpp"
 #include "util/error.hpp"
@@ -202,8 +203,9 @@ void EigenSolver::solve()
             }
         }
 
-        // Check for NaN
-        if (keff_ != keff_) {
+        // Check for NaN and overflow
+        if (!std::isfinite(keff_) || !std::isfinite(error_k_) ||
+            !std::isfinite(error_psi_)) {
             throw EXCEPT("Eigenvalue is not a number. Giving up.");
         }
 
-- 
2.43.0


From 1931269137d44030692ad5988778d7bbc794b81c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 09:04:13 +0000
Subject: [PATCH 82/83] fix: accept the quadrature names of the manual

---
 src/core/angular_quadrature.cpp | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/core/angular_quadrature.cpp b/src/core/angular_quadrature.cpp
index e23623f..83ec59b 100644
--- a/src/core/angular_quadrature.cpp
+++ b/src/core/angular_quadrature.cpp
@@ -71,7 +71,8 @@ AngularQuadrature::AngularQuadrature(const pugi::xml_node &input)
 
         // Generate angles for octant 1
         angles_ = GenSn(order);
-    } else if ((type_str == "cg") || (type_str == "chebyshev-gauss")) {
+    } else if ((type_str == "cg") || (type_str == "chebyshev-gauss") ||
+               (type_str == "chebychev-gauss")) {
         validate_input(input, recognized_attributes_prod);
         if ((n_azimuthal_ < 1) || (n_polar_ < 1)) {
             throw EXCEPT("Number of polar or azimuthal angles is invalid");
@@ -80,7 +81,8 @@ AngularQuadrature::AngularQuadrature(const pugi::xml_node &input)
 
         // Generate angles for octant 1
         angles_ = GenProduct(GenChebyshev(n_azimuthal_), GenGauss(n_polar_));
-    } else if ((type_str == "cy") || (type_str == "chebyshev-yamamoto")) {
+    } else if ((type_str == "cy") || (type_str == "chebyshev-yamamoto") ||
+               (type_str == "chebychev-yamamoto")) {
         validate_input(input, recognized_attributes_prod);
         if ((n_azimuthal_ < 1) || (n_polar_ < 1)) {
             throw EXCEPT("Number of polar or azimuthal angles is invalid");
-- 
2.43.0


From d6c9aeadc0131e9850e053b58c5942a224295488 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 11:33:19 +0000
Subject: [PATCH 83/83] fix: count more than 255 ray segments per pin

---
 src/sweepers/moc/ray.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/sweepers/moc/ray.hpp b/src/sweepers/moc/ray.hpp
index 22532d5..ddb6ae3 100644
--- a/src/sweepers/moc/ray.hpp
+++ b/src/sweepers/moc/ray.hpp
@@ -42,8 +42,8 @@ class Ray {
     struct RayCoarseData {
         Surface fw : 4;
         Surface bw : 4;
-        unsigned int nseg_fw : 8;
-        unsigned int nseg_bw : 8;
+        unsigned int nseg_fw;
+        unsigned int nseg_bw;
 
         friend std::ostream &operator<<(std::ostream &os,
                                         const RayCoarseData rcd)
-- 
2.43.0

