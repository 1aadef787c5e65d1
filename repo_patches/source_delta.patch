From 2734f0b79cd0735d4216a2b5ad4bcb3c4b677c20 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 01:04:13 +0000
Subject: [PATCH 01/34] fix: find the exit point of a ray through a corner of a
 box

Box::intersect excluded points exactly on a corner from all four faces and
also accepted intersections behind the starting point. For some pitches the
diagonal azimuthal divisions of a cylindrical pin therefore collapsed to a
point.
---
 src/core/geometry/box.cpp | 60 +++++++++++++++------------------------
 1 file changed, 23 insertions(+), 37 deletions(-)

diff --git a/src/core/geometry/box.cpp b/src/core/geometry/box.cpp
index c479e04..1041ef8 100644
--- a/src/core/geometry/box.cpp
+++ b/src/core/geometry/box.cpp
@@ -16,6 +16,8 @@
 
 #include "box.hpp"
 
+#include <algorithm>
+
 namespace mocc {
 std::pair<real_t, Surface> Box::distance_to_surface(Point2 p,
                                                     Direction dir) const
@@ -45,50 +47,34 @@ Point2 Box::intersect(Point2 p, Angle ang) const
     // Dont use this code for astronomy stuff
     real_t d_min = 1.0e12;
     real_t d;
-    real_t x, y;
 
     Point2 p_out;
 
-    // Check distance to x-normal planes
-    x = p1_.x;
-    d = (p1_.x - p.x) / ox;
-    y = p.y + oy * d;
-    if ((fabs(d) > REAL_FUZZ) && (d < d_min) && (y > p1_.y) && (y < p2_.y)) {
-        d_min    = fabs(d);
-        p_out.x  = x;
-        p_out.y  = y;
-        p_out.ok = true;
-    }
+    // The ray leaves the box through the closest of the planes that lie ahead
+    // of it. When it goes through a corner, the distances to two planes agree
+    // to within round-off, so the coordinate along the plane has to be kept
+    // from leaving the box.
 
-    x = p2_.x;
-    d = (p2_.x - p.x) / ox;
-    y = p.y + oy * d;
-    if ((fabs(d) > REAL_FUZZ) && (d < d_min) && (y > p1_.y) && (y < p2_.y)) {
-        d_min    = fabs(d);
-        p_out.x  = x;
-        p_out.y  = y;
-        p_out.ok = true;
+    // Check distance to x-normal planes
+    for (real_t x : {p1_.x, p2_.x}) {
+        d = (x - p.x) / ox;
+        if ((d > REAL_FUZZ) && (d < d_min)) {
+            d_min    = d;
+            p_out.x  = x;
+            p_out.y  = std::min(std::max(p.y + oy * d, p1_.y), p2_.y);
+            p_out.ok = true;
+        }
     }
 
     // Check distance to y-normal planes
-    y = p1_.y;
-    d = (p1_.y - p.y) / oy;
-    x = p.x + ox * d;
-    if ((fabs(d) > REAL_FUZZ) && (d < d_min) && (x > p1_.x) && (x < p2_.x)) {
-        d_min    = fabs(d);
-        p_out.x  = x;
-        p_out.y  = y;
-        p_out.ok = true;
-    }
-
-    y = p2_.y;
-    d = (p2_.y - p.y) / oy;
-    x = p.x + ox * d;
-    if ((fabs(d) > REAL_FUZZ) && (d < d_min) && (x > p1_.x) && (x < p2_.x)) {
-        d_min    = fabs(d);
-        p_out.x  = x;
-        p_out.y  = y;
-        p_out.ok = true;
+    for (real_t y : {p1_.y, p2_.y}) {
+        d = (y - p.y) / oy;
+        if ((d > REAL_FUZZ) && (d < d_min)) {
+            d_min    = d;
+            p_out.x  = std::min(std::max(p.x + ox * d, p1_.x), p2_.x);
+            p_out.y  = y;
+            p_out.ok = true;
+        }
     }
 
     return p_out;
-- 
2.43.0


From d242928e888457e909b0725642a6855ded7c9dfc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 01:04:13 +0000
Subject: [PATCH 02/34] fix: use true sector areas outside the rings of a
 cylindrical pin

The area between the outermost ring and the pin boundary was split evenly
among the azimuthal divisions. With six divisions the parts of the square
are not equal, so region volumes were wrong.
---
 src/core/pin_mesh_cyl.cpp | 26 +++++++++++++++++++++++---
 1 file changed, 23 insertions(+), 3 deletions(-)

diff --git a/src/core/pin_mesh_cyl.cpp b/src/core/pin_mesh_cyl.cpp
index 04a2598..a1e6f2a 100644
--- a/src/core/pin_mesh_cyl.cpp
+++ b/src/core/pin_mesh_cyl.cpp
@@ -159,11 +159,31 @@ PinMesh_Cyl::PinMesh_Cyl(const pugi::xml_node &input) : PinMesh(input)
         prev_r = ri;
     }
 
-    // Add the volumes from the outer annular region
+    // Add the volumes from the outer annular region. The azimuthal divisions do
+    // not necessarily cut the bounding box into equal parts (e.g. six sectors),
+    // so find the area of the box that lies in each of them.
     real_t large_r = radii_[radii_.size() - 1];
-    real_t v_outer = (pitch_x_ * pitch_y_ - PI * large_r * large_r) / n_azi;
+    std::vector<Point2> box_points;
+    for (const auto &li : lines_) {
+        box_points.push_back(li.p2);
+    }
+    box_points.push_back(Point2(h_pitch_x, h_pitch_y));
+    box_points.push_back(Point2(-h_pitch_x, h_pitch_y));
+    box_points.push_back(Point2(-h_pitch_x, -h_pitch_y));
+    box_points.push_back(Point2(h_pitch_x, -h_pitch_y));
+    std::sort(box_points.begin(), box_points.end(),
+              [](const Point2 &a, const Point2 &b) {
+                  return a.alpha() < b.alpha();
+              });
+    VecF box_areas(n_azi, 0.0);
+    for (size_t i = 0; i < box_points.size(); i++) {
+        const Point2 &a = box_points[i];
+        const Point2 &b = box_points[(i + 1) % box_points.size()];
+        int ia          = Midpoint(a, b).alpha() / ang_sep;
+        box_areas[std::min(ia, n_azi - 1)] += 0.5 * (a.x * b.y - a.y * b.x);
+    }
     for (int ia = 0; ia < n_azi; ia++) {
-        areas_.push_back(v_outer);
+        areas_.push_back(box_areas[ia] - PI * large_r * large_r / n_azi);
     }
     assert((int)areas_.size() == n_reg_);
 
-- 
2.43.0


From eb6fcc0bcda283084918acbbbb425ccbaf0d9eae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 01:09:23 +0000
Subject: [PATCH 03/34] fix: read the materials of rectangular pins in matrix
 order

The input documentation has the first entry of a rectangular pin in the
upper-left region.  The materials were applied starting with the lower row,
which turned such pins upside down.
---
 src/core/pin.cpp           |  1 +
 src/core/pin_mesh_base.hpp | 11 +++++++++++
 src/core/pin_mesh_rect.cpp | 15 +++++++++++++++
 src/core/pin_mesh_rect.hpp |  2 ++
 4 files changed, 29 insertions(+)

diff --git a/src/core/pin.cpp b/src/core/pin.cpp
index ae1d177..97ab90e 100644
--- a/src/core/pin.cpp
+++ b/src/core/pin.cpp
@@ -61,6 +61,7 @@ Pin::Pin(const pugi::xml_node &input, const PinMesh_Map_t &meshes,
         throw EXCEPT("Wrong number of materials specified in pin "
                      "definition");
     }
+    mat_IDs_ = pin_mesh_->order_materials(mat_IDs_);
 
     // Make sure all of the material IDs are valid, and check for fissile
     // material
diff --git a/src/core/pin_mesh_base.hpp b/src/core/pin_mesh_base.hpp
index 4c586bb..8693c3c 100644
--- a/src/core/pin_mesh_base.hpp
+++ b/src/core/pin_mesh_base.hpp
@@ -131,6 +131,17 @@ public:
     */
     virtual size_t n_fsrs(unsigned int xsreg) const = 0;
 
+    /**
+     * \brief Arrange a list of materials, ordered as in the input, by XS
+     * region index.
+     *
+     * The default is for both orderings to be the same.
+     */
+    virtual VecI order_materials(const VecI &mats) const
+    {
+        return mats;
+    }
+
     /**
      * \brief Insert hte \ref PinMesh into the passed ostream.
      *
diff --git a/src/core/pin_mesh_rect.cpp b/src/core/pin_mesh_rect.cpp
index 8842e9e..5ab9a9f 100644
--- a/src/core/pin_mesh_rect.cpp
+++ b/src/core/pin_mesh_rect.cpp
@@ -192,6 +192,21 @@ int PinMesh_Rect::find_reg(Point2 p, Direction dir) const
     return ireg;
 }
 
+/**
+ * Materials are specified in matrix order, starting with the northern row,
+ * while the regions are numbered starting with the southern row.
+ */
+VecI PinMesh_Rect::order_materials(const VecI &mats) const
+{
+    VecI ordered;
+    ordered.reserve(mats.size());
+    for (int iy = (int)ny_ - 1; iy >= 0; iy--) {
+        auto row = mats.cbegin() + iy * nx_;
+        ordered.insert(ordered.end(), row, row + nx_);
+    }
+    return ordered;
+}
+
 void PinMesh_Rect::print(std::ostream &os) const
 {
     PinMesh::print(os);
diff --git a/src/core/pin_mesh_rect.hpp b/src/core/pin_mesh_rect.hpp
index 0359dd9..d20bd8f 100644
--- a/src/core/pin_mesh_rect.hpp
+++ b/src/core/pin_mesh_rect.hpp
@@ -38,6 +38,8 @@ public:
         return 1;
     }
 
+    VecI order_materials(const VecI &mats) const override;
+
     virtual std::pair<real_t, bool>
     distance_to_surface(Point2 p, Direction dir,
                         int &coincident) const override;
-- 
2.43.0


From 1cce8ccd8fd07d752dd1dfeb6ce2f0bb665919d1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 01:15:18 +0000
Subject: [PATCH 04/34] fix: extend the pin boundary lines over the whole
 height of the core

The vertical lines between pins only reached as far as the core is wide, so
rays in cores taller than wide missed pin boundaries near the top.
---
 src/core/core_mesh.cpp | 2 +-
 src/core/mesh.cpp      | 4 ++--
 2 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/core/core_mesh.cpp b/src/core/core_mesh.cpp
index 62d65b6..b96a5e0 100644
--- a/src/core/core_mesh.cpp
+++ b/src/core/core_mesh.cpp
@@ -122,7 +122,7 @@ CoreMesh::CoreMesh(const pugi::xml_node &input)
 
     // Form lines for internal pin boundaries and domain bounding box
     for (auto xi = x_vec_.cbegin() + 1; xi != x_vec_.cend() - 1; ++xi) {
-        lines_.push_back(Line(Point2(*xi, 0.0), Point2(*xi, hx_)));
+        lines_.push_back(Line(Point2(*xi, 0.0), Point2(*xi, hy_)));
     }
     for (auto yi = y_vec_.cbegin() + 1; yi != y_vec_.cend() - 1; ++yi) {
         lines_.push_back(Line(Point2(0.0, *yi), Point2(hx_, *yi)));
diff --git a/src/core/mesh.cpp b/src/core/mesh.cpp
index 0dcfb42..fea6112 100644
--- a/src/core/mesh.cpp
+++ b/src/core/mesh.cpp
@@ -44,10 +44,10 @@ Mesh::Mesh(size_t n_reg, size_t n_xsreg, const VecF &hx, const VecF &hy,
     bc_ = bc;
 
     hx_ = x_vec_.back();
+    hy_ = y_vec_.back();
     for (auto xi = x_vec_.cbegin() + 1; xi != x_vec_.cend() - 1; ++xi) {
-        lines_.push_back(Line(Point2(*xi, 0.0), Point2(*xi, hx_)));
+        lines_.push_back(Line(Point2(*xi, 0.0), Point2(*xi, hy_)));
     }
-    hy_ = y_vec_.back();
     for (auto yi = y_vec_.cbegin() + 1; yi != y_vec_.cend() - 1; ++yi) {
         lines_.push_back(Line(Point2(0.0, *yi), Point2(hx_, *yi)));
     }
-- 
2.43.0


From 901ab9623558826aa4cc9e0bc066b6120a01a67d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 01:15:18 +0000
Subject: [PATCH 05/34] fix: trace rays that enter or leave a pin on one of its
 rings

With a radius of half the pitch, a ray can enter the pin at a point of the
ring.  Only one intersection is then inside the pin; this aborted on an
assertion or lost the ring.
---
 src/core/geometry/geom.hpp | 1 -
 src/core/pin_mesh_cyl.cpp  | 6 +++++-
 2 files changed, 5 insertions(+), 2 deletions(-)

diff --git a/src/core/geometry/geom.hpp b/src/core/geometry/geom.hpp
index fef2261..8e8344a 100644
--- a/src/core/geometry/geom.hpp
+++ b/src/core/geometry/geom.hpp
@@ -90,7 +90,6 @@ inline int Intersect(Line l, Circle circ, Point2 &p1, Point2 &p2)
         if ((0.0 < t2) & (t2 < 1.0)) {
             // Make sure that the first point is always valid
             if (ret == 0) {
-                assert(false);
                 p1 = l.p1;
                 p1.x += u1 * t2;
                 p1.y += u2 * t2;
diff --git a/src/core/pin_mesh_cyl.cpp b/src/core/pin_mesh_cyl.cpp
index a1e6f2a..fc24681 100644
--- a/src/core/pin_mesh_cyl.cpp
+++ b/src/core/pin_mesh_cyl.cpp
@@ -210,8 +210,12 @@ int PinMesh_Cyl::trace(Point2 p1, Point2 p2, int first_reg, VecF &s,
         Point2 p1;
         Point2 p2;
         int ret = Intersect(l, ci, p1, p2);
-        if (ret == 2) {
+        // When the ray enters or leaves the pin at a point on the ring, there
+        // is only one intersection on the inside of the pin.
+        if (ret > 0) {
             ps.push_back(p1);
+        }
+        if (ret == 2) {
             ps.push_back(p2);
         }
     }
-- 
2.43.0


From fb1511de105beaae3bfec05d2618139ae6fd4246 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 01:18:55 +0000
Subject: [PATCH 06/34] fix: store more than 255 segments of a ray in a pin

The number of segments of a ray in each pin was stored in 8 bits, which
overflowed silently for finely divided pins.  Use the unused bits.
---
 src/sweepers/moc/ray.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/sweepers/moc/ray.hpp b/src/sweepers/moc/ray.hpp
index 22532d5..e6dc1a9 100644
--- a/src/sweepers/moc/ray.hpp
+++ b/src/sweepers/moc/ray.hpp
@@ -42,8 +42,8 @@ class Ray {
     struct RayCoarseData {
         Surface fw : 4;
         Surface bw : 4;
-        unsigned int nseg_fw : 8;
-        unsigned int nseg_bw : 8;
+        unsigned int nseg_fw : 12;
+        unsigned int nseg_bw : 12;
 
         friend std::ostream &operator<<(std::ostream &os,
                                         const RayCoarseData rcd)
-- 
2.43.0


From 3d0ccb70e881f9bc135f8dda15f77cd01d35c9a5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 01:23:56 +0000
Subject: [PATCH 07/34] fix: choose modular ray angles for cores that are not
 square

The default way of making rays link up at the boundary ignored the
aspect ratio of the core, so all angles were tilted by it and the rays
could be coarser than requested.  Very flat angles got no rays at all on
one face.
---
 src/sweepers/moc/ray_data.cpp | 30 ++++++++++++++++++------------
 1 file changed, 18 insertions(+), 12 deletions(-)

diff --git a/src/sweepers/moc/ray_data.cpp b/src/sweepers/moc/ray_data.cpp
index 2740e69..7eca6d8 100644
--- a/src/sweepers/moc/ray_data.cpp
+++ b/src/sweepers/moc/ray_data.cpp
@@ -496,23 +496,29 @@ std::pair<int, int> RayData::modularize_angle(Angle ang, real_t hx, real_t hy,
 
     switch (modularization_method_) {
     case Modularization::RATIONAL: {
-        // Get the angle cast into a slope less than 1, so that we can find a
-        // rational approximation to it.
-        real_t m = (ang.alpha < PI / 4.0) ? std::tan(ang.alpha)
-                                          : std::tan(PI / 2.0 - ang.alpha);
-        // Determine the best rational approximation of the slope.
-        auto Nxy     = rational_approximation(m, 0.002, 0);
-        Nx           = Nxy.first;
-        Ny           = Nxy.second;
+        // To link up at the boundaries, the rays need Nx/Ny to match the slope
+        // of the angle, scaled by the aspect ratio of the module. Get that
+        // ratio to be less than 1, so that we can find a rational approximation
+        // to it.
+        real_t ratio = std::tan(ang.alpha) * hx / hy;
+        bool invert  = ratio > 1.0;
+        if (invert) {
+            ratio = 1.0 / ratio;
+        }
+        // Determine the best rational approximation of the ratio. The tolerance
+        // is limited so that we never end up without rays on one of the faces.
+        auto Nxy =
+            rational_approximation(ratio, std::min(0.002, 0.5 * ratio), 0);
+        Nx = Nxy.first;
+        Ny = Nxy.second;
+        if (invert) {
+            std::swap(Nx, Ny);
+        }
         real_t alpha = std::atan((Nx * hy) / (Ny * hx));
         int scale =
             std::ceil((hx / Nx * std::abs(std::sin(alpha))) / nominal_spacing);
         Nx *= scale;
         Ny *= scale;
-        if (ang.alpha > PI / 4.0) {
-            std::swap(Nx, Ny);
-        }
-
     } break;
     case Modularization::TRIG:
     default:
-- 
2.43.0


From 64c3ee002ea50f8f493dd88242c56f2f512d11f4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 01:25:18 +0000
Subject: [PATCH 08/34] fix: keep points on a lattice boundary inside the
 lattice

Points found on the boundary between lattices, within the precision of
core coordinates, could be slightly outside of the lattice and abort the
ray tracing.
---
 src/core/plane.cpp | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/src/core/plane.cpp b/src/core/plane.cpp
index f29d6a0..8dcc92c 100644
--- a/src/core/plane.cpp
+++ b/src/core/plane.cpp
@@ -126,11 +126,17 @@ const PinMesh *Plane::get_pinmesh(Point2 &p, int &first_reg,
     p.x -= hx_[ix];
     p.y -= hy_[iy];
 
+    // A point can be found on the boundary of a lattice and still lie outside
+    // of it within the precision of its core-local coordinates.
+    const Lattice &lattice = this->at(ix, iy);
+    p.x = std::min(lattice.hx(), std::max(0.0, p.x));
+    p.y = std::min(lattice.hy(), std::max(0.0, p.y));
+
     // Increment the first region index by the starting index of the lattice
     first_reg += first_reg_lattice_[ilat];
 
     // Ask lattice for reference to pin mesh, with modification of first_reg
-    const PinMesh *pm = this->at(ix, iy).get_pinmesh(p, first_reg, dir);
+    const PinMesh *pm = lattice.get_pinmesh(p, first_reg, dir);
 
     // Restore the point coordinates to core-local
     p.x += hx_[ix];
-- 
2.43.0


From d0b6649ed53f908a24e8f96861714942c89d41f4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 01:33:49 +0000
Subject: [PATCH 09/34] fix: lay rays out from their number along each face

Positions derived from the sine and cosine of the angle missed pin
corners by enough to leave a tiny first or last segment, which was
assigned to a region of the wrong pin and written out of bounds.
---
 src/sweepers/moc/ray_data.cpp | 16 ++++++++++++++--
 1 file changed, 14 insertions(+), 2 deletions(-)

diff --git a/src/sweepers/moc/ray_data.cpp b/src/sweepers/moc/ray_data.cpp
index 7eca6d8..5f9f209 100644
--- a/src/sweepers/moc/ray_data.cpp
+++ b/src/sweepers/moc/ray_data.cpp
@@ -221,8 +221,10 @@ RayData::RayData(const pugi::xml_node &input, const AngularQuadrature &ang_quad,
             int Ny  = Ny_[iang];
             std::array<int, 2> bc;
             real_t space   = spacing_[iang];
-            real_t space_x = std::abs(space / std::sin(ang->alpha));
-            real_t space_y = std::abs(space / std::cos(ang->alpha));
+            // Get the distance between rays along the faces from their number,
+            // so that rays through the corners of pins hit them accurately.
+            real_t space_x = hx / Nx;
+            real_t space_y = hy / Ny;
 
             LogFile << "Spacing: " << ang->alpha << " " << space << " "
                     << space_x << " " << space_y << std::endl;
@@ -269,6 +271,11 @@ RayData::RayData(const pugi::xml_node &input, const AngularQuadrature &ang_quad,
                 assert(bc[1] >= 0);
                 assert(bc[0] < Nx + Ny);
                 assert(bc[1] < Nx + Ny);
+                if (bc[1] < Ny) {
+                    p2.y = (0.5 + bc[1]) * space_y;
+                } else {
+                    p2.x = (0.5 + bc[1] - Ny) * space_x;
+                }
                 rays.emplace_back(Ray(p1, p2, bc, iplane, mesh));
 
                 max_seg_ = std::max(rays.back().nseg(), max_seg_);
@@ -299,6 +306,11 @@ RayData::RayData(const pugi::xml_node &input, const AngularQuadrature &ang_quad,
                 assert(bc[1] >= 0);
                 assert(bc[0] < Nx + Ny);
                 assert(bc[1] < Nx + Ny);
+                if (bc[1] < Ny) {
+                    p2.y = (0.5 + bc[1]) * space_y;
+                } else {
+                    p2.x = (0.5 + bc[1] - Ny) * space_x;
+                }
                 rays.emplace_back(Ray(p1, p2, bc, iplane, mesh));
                 max_seg_ = std::max(rays.back().nseg(), max_seg_);
             }
-- 
2.43.0


From 8e8b55c858c875540f5cdbf0a6f28bda6d34d9d3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 01:37:27 +0000
Subject: [PATCH 10/34] fix: report every face a particle leaves through at
 edges of the domain

The faces were checked in pairs of different axes, so that one of two
faces meeting at an edge could be dropped.
---
 src/core/mesh.hpp | 16 ++++++++--------
 1 file changed, 8 insertions(+), 8 deletions(-)

diff --git a/src/core/mesh.hpp b/src/core/mesh.hpp
index 0d8437f..2f89d42 100644
--- a/src/core/mesh.hpp
+++ b/src/core/mesh.hpp
@@ -542,16 +542,16 @@ public:
             {Surface::INTERNAL, Surface::INTERNAL, Surface::INTERNAL}};
         if ((p.x < REAL_FUZZ) && (dir.ox < 0.0)) {
             surf[0] = Surface::WEST;
-        } else if ((p.y < REAL_FUZZ) && (dir.oy < 0.0)) {
-            surf[0] = Surface::SOUTH;
-        }
-        if ((p.z < REAL_FUZZ) && (dir.oz < 0.0)) {
-            surf[1] = Surface::BOTTOM;
         } else if ((p.x / hx_ > 1.0 - REAL_FUZZ) && (dir.ox > 0.0)) {
-            surf[1] = Surface::EAST;
+            surf[0] = Surface::EAST;
         }
-        if ((p.y / hy_ > 1.0 - REAL_FUZZ) && (dir.oy > 0.0)) {
-            surf[2] = Surface::NORTH;
+        if ((p.y < REAL_FUZZ) && (dir.oy < 0.0)) {
+            surf[1] = Surface::SOUTH;
+        } else if ((p.y / hy_ > 1.0 - REAL_FUZZ) && (dir.oy > 0.0)) {
+            surf[1] = Surface::NORTH;
+        }
+        if ((p.z < REAL_FUZZ) && (dir.oz < 0.0)) {
+            surf[2] = Surface::BOTTOM;
         } else if ((p.z / hz_ > 1.0 - REAL_FUZZ) && (dir.oz > 0.0)) {
             surf[2] = Surface::TOP;
         }
-- 
2.43.0


From 6997dc1e38c887551b68ad8d332280de224a421f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 01:45:48 +0000
Subject: [PATCH 11/34] fix: find the sector a particle on a sector line is
 moving into

---
 src/core/pin_mesh_cyl.cpp | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/core/pin_mesh_cyl.cpp b/src/core/pin_mesh_cyl.cpp
index fc24681..1f78a06 100644
--- a/src/core/pin_mesh_cyl.cpp
+++ b/src/core/pin_mesh_cyl.cpp
@@ -320,11 +320,13 @@ int PinMesh_Cyl::find_reg(Point2 p, Direction dir) const
     int ia = -1;
 
     if (fp_equiv_abs(closest_azi * azi_space, azi)) {
-        ia = (azi < dir.alpha) ? closest_azi : closest_azi - 1;
+        // On the line between two sectors. Use the one that the direction is
+        // turning towards.
+        ia = (std::sin(dir.alpha - azi) > 0.0) ? closest_azi : closest_azi - 1;
     } else {
         ia = (int)azi_div;
     }
-    ia = ia % sub_azi_[0];
+    ia = (ia + sub_azi_[0]) % sub_azi_[0];
 
     // Determine the actual region index
     int ireg = ir * sub_azi_[0] + ia;
-- 
2.43.0


From aad13ff5a3f1efed13072915e2e012f6ccb86146 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 01:45:48 +0000
Subject: [PATCH 12/34] fix: locate points on pin boundaries in the pin they
 are moving into

The pin index was found without regard to the direction of travel, and
could differ from the pin whose mesh was used.  Points just outside of
the western and southern boundaries ended up in the last lattice or pin.
---
 src/core/core_mesh.cpp | 26 +++++++++++++++++---------
 src/core/lattice.cpp   |  8 ++++----
 src/core/plane.cpp     |  8 ++++----
 3 files changed, 25 insertions(+), 17 deletions(-)

diff --git a/src/core/core_mesh.cpp b/src/core/core_mesh.cpp
index b96a5e0..0769859 100644
--- a/src/core/core_mesh.cpp
+++ b/src/core/core_mesh.cpp
@@ -248,15 +248,6 @@ CoreMesh::LocationInfo CoreMesh::get_location_info(Point3 p,
 {
     LocationInfo info;
 
-    // Locate the pin Position
-    int ix = std::distance(x_vec_.begin(),
-                           std::lower_bound(x_vec_.begin(), x_vec_.end(), p.x));
-    info.pos.x = ix - 1;
-
-    int iy = std::distance(y_vec_.begin(),
-                           std::lower_bound(y_vec_.begin(), y_vec_.end(), p.y));
-    info.pos.y = iy - 1;
-
     info.pos.z = this->plane_index(p.z, dir.oz);
 
     // Make a 2D copy of the 3D point to convert to pin-local
@@ -270,6 +261,23 @@ CoreMesh::LocationInfo CoreMesh::get_location_info(Point3 p,
         planes_[plane_index].get_pinmesh(pin_origin, info.reg_offset, dir);
     info.local_point -= pin_origin;
 
+    // The point might lie slightly outside of the pin, if it is on its boundary
+    real_t hx          = 0.5 * info.pm->pitch_x();
+    real_t hy          = 0.5 * info.pm->pitch_y();
+    info.local_point.x = std::min(hx, std::max(-hx, info.local_point.x));
+    info.local_point.y = std::min(hy, std::max(-hy, info.local_point.y));
+
+    // Locate the pin Position. Use the pin that was found above, since the
+    // point itself is ambiguous on a pin boundary.
+    info.pos.x = std::distance(x_vec_.begin(),
+                               std::lower_bound(x_vec_.begin(), x_vec_.end(),
+                                                pin_origin.x)) -
+                 1;
+    info.pos.y = std::distance(y_vec_.begin(),
+                               std::lower_bound(y_vec_.begin(), y_vec_.end(),
+                                                pin_origin.y)) -
+                 1;
+
     info.pin_boundary = {
         {Point3(x_vec_[info.pos.x], y_vec_[info.pos.y], z_vec_[info.pos.z]),
          Point3(x_vec_[info.pos.x + 1], y_vec_[info.pos.y + 1],
diff --git a/src/core/lattice.cpp b/src/core/lattice.cpp
index 391fd73..b69d1cd 100644
--- a/src/core/lattice.cpp
+++ b/src/core/lattice.cpp
@@ -134,25 +134,25 @@ const PinMesh *Lattice::get_pinmesh(Point2 &p, int &first_reg,
     /// break the assumption here that all PinMesh origins are smack-dab in
     /// middle of the mesh. Should provide some functionality on the PinMesh
     /// itself to provide its origin to clients.
-    unsigned ix = std::distance(
+    int ix = std::distance(
         x_vec_.cbegin(),
         std::lower_bound(x_vec_.cbegin(), x_vec_.cend(), p.x, fuzzy_lt));
     if (fp_equiv_abs(p.x, x_vec_[ix])) {
         ix = (dir.ox > 0.0) ? ix + 1 : ix;
     }
     ix--;
-    ix = std::min(nx_ - 1, std::max(0u, ix));
+    ix = std::min((int)nx_ - 1, std::max(0, ix));
 
     p.x = 0.5 * (x_vec_[ix + 1] + x_vec_[ix]);
 
-    unsigned iy = std::distance(
+    int iy = std::distance(
         y_vec_.cbegin(),
         std::lower_bound(y_vec_.cbegin(), y_vec_.cend(), p.y, fuzzy_lt));
     if (fp_equiv_abs(p.y, y_vec_[iy])) {
         iy = (dir.oy > 0.0) ? iy + 1 : iy;
     }
     iy--;
-    iy  = std::min(ny_ - 1, std::max(0u, iy));
+    iy  = std::min((int)ny_ - 1, std::max(0, iy));
     p.y = 0.5 * (y_vec_[iy + 1] + y_vec_[iy]);
 
     unsigned int i = iy * nx_ + ix;
diff --git a/src/core/plane.cpp b/src/core/plane.cpp
index 8dcc92c..e751551 100644
--- a/src/core/plane.cpp
+++ b/src/core/plane.cpp
@@ -102,13 +102,13 @@ const PinMesh *Plane::get_pinmesh(Point2 &p, int &first_reg,
     assert(p.x / hx_.back() < 1.0 + REAL_FUZZ);
     assert(p.y / hy_.back() < 1.0 + REAL_FUZZ);
     // Locate the lattice
-    unsigned ix = std::distance(
+    int ix = std::distance(
         hx_.begin(), std::lower_bound(hx_.begin(), hx_.end(), p.x, fuzzy_lt));
     if (fp_equiv(p.x, hx_[ix])) {
         ix = (dir.ox > 0.0) ? ix + 1 : ix;
     }
     ix--;
-    unsigned iy = std::distance(
+    int iy = std::distance(
         hy_.begin(), std::lower_bound(hy_.begin(), hy_.end(), p.y, fuzzy_lt));
     if (fp_equiv(p.y, hy_[iy])) {
         iy = (dir.oy > 0.0) ? iy + 1 : iy;
@@ -116,8 +116,8 @@ const PinMesh *Plane::get_pinmesh(Point2 &p, int &first_reg,
     iy--;
 
     // Force indices to be inside the plane
-    ix = std::min(nx_ - 1, std::max(0u, ix));
-    iy = std::min(ny_ - 1, std::max(0u, iy));
+    ix = std::min((int)nx_ - 1, std::max(0, ix));
+    iy = std::min((int)ny_ - 1, std::max(0, iy));
 
     size_t ilat = nx_ * iy + ix;
 
-- 
2.43.0


From aff4e84541ea938546d8c6bd5ceefbd40ba56591 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 01:45:48 +0000
Subject: [PATCH 13/34] fix: track Monte Carlo particles without nudging them
 past surfaces

The nudge was not along the direction of flight, and moved particles
back to the wrong side of circles and sector lines.  Their next track was
then scored in the wrong region, and some never ended.  Particles within
the nudge of a plane boundary missed it.
---
 src/sweepers/mc/particle.hpp        | 15 +++----
 src/sweepers/mc/particle_pusher.cpp | 66 +++++++++++------------------
 2 files changed, 31 insertions(+), 50 deletions(-)

diff --git a/src/sweepers/mc/particle.hpp b/src/sweepers/mc/particle.hpp
index cdabee4..240c4de 100644
--- a/src/sweepers/mc/particle.hpp
+++ b/src/sweepers/mc/particle.hpp
@@ -101,15 +101,12 @@ public:
      */
     void move(real_t d)
     {
-        location.x += (d + BUMP) * direction.ox + BUMP * sgn(direction.ox);
-        location.y += (d + BUMP) * direction.oy + BUMP * sgn(direction.oy);
-
-        location_global.x +=
-            (d + BUMP) * direction.ox + BUMP * sgn(direction.ox);
-        location_global.y +=
-            (d + BUMP) * direction.oy + BUMP * sgn(direction.oy);
-        location_global.z +=
-            (d + BUMP) * direction.oz + BUMP * sgn(direction.oz);
+        location.x += d * direction.ox;
+        location.y += d * direction.oy;
+
+        location_global.x += d * direction.ox;
+        location_global.y += d * direction.oy;
+        location_global.z += d * direction.oz;
         return;
     }
 
diff --git a/src/sweepers/mc/particle_pusher.cpp b/src/sweepers/mc/particle_pusher.cpp
index b507b7b..8c728d5 100644
--- a/src/sweepers/mc/particle_pusher.cpp
+++ b/src/sweepers/mc/particle_pusher.cpp
@@ -36,19 +36,22 @@ real_t inline distance_to_pin(std::array<Point3, 2> bounds,
     other = (p.direction.ox > 0.0)
                 ? (bounds[1].x - p.location_global.x) / p.direction.ox
                 : (bounds[0].x - p.location_global.x) / p.direction.ox;
-    other = other > 0.0 ? other : std::numeric_limits<real_t>::max();
+    other = p.direction.ox != 0.0 ? std::max(0.0, other)
+                                  : std::numeric_limits<real_t>::max();
     dist  = std::min(other, dist);
 
     other = (p.direction.oy > 0.0)
                 ? (bounds[1].y - p.location_global.y) / p.direction.oy
                 : (bounds[0].y - p.location_global.y) / p.direction.oy;
-    other = other > 0.0 ? other : std::numeric_limits<real_t>::max();
+    other = p.direction.oy != 0.0 ? std::max(0.0, other)
+                                  : std::numeric_limits<real_t>::max();
     dist  = std::min(other, dist);
 
     other = (p.direction.oz > 0.0)
                 ? (bounds[1].z - p.location_global.z) / p.direction.oz
                 : (bounds[0].z - p.location_global.z) / p.direction.oz;
-    other = other > 0.0 ? other : std::numeric_limits<real_t>::max();
+    other = p.direction.oz != 0.0 ? std::max(0.0, other)
+                                  : std::numeric_limits<real_t>::max();
     dist  = std::min(other, dist);
 
     assert(dist < std::numeric_limits<real_t>::max());
@@ -207,10 +210,6 @@ void ParticlePusher::simulate(Particle p, bool tally)
     p.alive = true;
 
     while (p.alive) {
-        const XSMeshRegion &xsreg = xs_mesh_[p.ixsreg];
-        real_t xstr               = xsreg.xsmactr(p.group);
-        real_t d_to_collision     = -std::log(RNG.random()) / xstr;
-
         // Determine distance to nearest surface
         auto d_to_surf = location_info.pm->distance_to_surface(
             p.location, p.direction, p.coincident);
@@ -230,6 +229,24 @@ void ParticlePusher::simulate(Particle p, bool tally)
             d_to_surf.second = true;
         }
 
+        // The particle might be sitting on a surface, so find its region from
+        // the middle of the path to the next one.
+        if (d_to_surf.first > BUMP) {
+            Point2 middle(p.location.x + 0.5 * d_to_surf.first * p.direction.ox,
+                          p.location.y + 0.5 * d_to_surf.first * p.direction.oy);
+            p.ireg = location_info.pm->find_reg(middle, p.direction) +
+                     location_info.reg_offset;
+            assert(p.ireg >= 0);
+            assert(p.ireg < (int)mesh_.n_reg(MeshTreatment::TRUE));
+            p.ixsreg = xsmesh_regions_[p.ireg];
+            assert(p.ixsreg >= 0);
+            assert(p.ixsreg < (int)xs_mesh_.size());
+        }
+
+        const XSMeshRegion &xsreg = xs_mesh_[p.ixsreg];
+        real_t xstr               = xsreg.xsmactr(p.group);
+        real_t d_to_collision     = -std::log(RNG.random()) / xstr;
+
         if (print) {
             std::cout << "distance to surface/collision: " << d_to_surf.first << " "
                  << d_to_surf.second << " " << d_to_collision << std::endl;
@@ -259,16 +276,8 @@ void ParticlePusher::simulate(Particle p, bool tally)
             // surface and re-sample distance to collision.
             if (!d_to_surf.second) {
                 // Particle crossed an internal boundary in the pin.
-                // Update its location and region index
+                // Update its location
                 p.move(d_to_surf.first);
-                p.ireg = location_info.pm->find_reg(p.location, p.direction) +
-                         location_info.reg_offset;
-                assert(p.ireg >= 0);
-                assert(p.ireg < (int)mesh_.n_reg(MeshTreatment::TRUE));
-                p.ixsreg = xsmesh_regions_[p.ireg];
-
-                assert(p.ixsreg >= 0);
-                assert(p.ixsreg < (int)xs_mesh_.size());
             } else {
                 // Particle crossed a pin boundary. Move to neighboring pin,
                 // handle boundary condition, etc.
@@ -284,7 +293,6 @@ void ParticlePusher::simulate(Particle p, bool tally)
                 // Check for domain boundary crossing
                 auto bound_surf =
                     mesh_.boundary_surface(p.location_global, p.direction);
-                bool reflected = false;
                 for (const auto &b : bound_surf) {
                     if (print) {
                         std::cout << b << std::endl;
@@ -295,9 +303,6 @@ void ParticlePusher::simulate(Particle p, bool tally)
                         auto bc = mesh_.boundary_condition(b);
                         switch (bc) {
                         case Boundary::REFLECT:
-                            // Move the particle back into the domain so it's
-                            // not floating in limbo
-                            reflected = true;
                             p.direction.reflect(b);
                             break;
                         case Boundary::VACUUM:
@@ -310,36 +315,15 @@ void ParticlePusher::simulate(Particle p, bool tally)
                     }
                 }
 
-                if (reflected) {
-                    p.move(BUMP);
-                    if (print) {
-                        std::cout << "Particle after reflection and move back:"
-                             << std::endl;
-                        std::cout << p << std::endl;
-                    }
-                }
-
                 // If the particle is still alive, relocate it
                 if (p.alive) {
                     location_info =
                         mesh_.get_location_info(p.location_global, p.direction);
                     p.location = location_info.local_point;
-                    p.ireg =
-                        location_info.reg_offset +
-                        location_info.pm->find_reg(p.location, p.direction);
                     p.pin_position = location_info.pos;
                     ipin_coarse    = mesh_.coarse_cell(location_info.pos);
                     assert(ipin_coarse >= 0);
                     assert(ipin_coarse < (int)mesh_.n_pin());
-                    assert(p.ireg >= 0);
-                    assert(p.ireg < (int)mesh_.n_reg(MeshTreatment::TRUE));
-                    p.ixsreg = xsmesh_regions_[p.ireg];
-                    if (p.ixsreg >= (int)xs_mesh_.size()) {
-                        std::cout << p;
-                        std::cout << std::endl;
-                    }
-                    assert(p.ixsreg >= 0);
-                    assert(p.ixsreg < (int)xs_mesh_.size());
                 }
             }
         } // collision or new region?
-- 
2.43.0


From ae2256d96f6d05e39061740a01094e9c0b012bcc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 02:03:03 +0000
Subject: [PATCH 14/34] fix: use the right weights for level-symmetric orders
 12, 14 and 16

---
 src/core/level_symmetric.hpp | 14 +++++++++-----
 1 file changed, 9 insertions(+), 5 deletions(-)

diff --git a/src/core/level_symmetric.hpp b/src/core/level_symmetric.hpp
index c81404a..703e8e5 100644
--- a/src/core/level_symmetric.hpp
+++ b/src/core/level_symmetric.hpp
@@ -41,12 +41,13 @@ real_t w_unique[] = {
 int w_offset[] = {0, 1, 2, 4, 7, 11, 16, 23};
 
 int w_map[] = {1, 1, 1, 1, 1, 2, 2, 1, 2, 1, 1, 2, 2, 2, 3, 2, 1, 2, 2, 1,
-               1, 2, 2, 3, 4, 3, 2, 4, 4, 2, 1, 2, 3, 2, 1, 1, 2, 2, 3, 5,
-               3, 4, 6, 6, 4, 3, 6, 7, 6, 3, 2, 5, 6, 6, 5, 2, 1, 2, 3, 4,
-               3, 2, 1, 1, 2, 2, 3, 5, 3, 4, 6, 6, 4, 4, 7, 8, 7, 4, 3, 6,
-               8, 8, 6, 3, 2, 5, 6, 7, 6, 5, 2, 1, 2, 3, 4, 4, 3, 2, 1};
+               1, 2, 2, 3, 4, 3, 2, 4, 4, 2, 1, 2, 3, 2, 1, 1, 2, 2, 3, 4,
+               3, 3, 5, 5, 3, 2, 4, 5, 4, 2, 1, 2, 3, 3, 2, 1, 1, 2, 2, 3,
+               5, 3, 4, 6, 6, 4, 3, 6, 7, 6, 3, 2, 5, 6, 6, 5, 2, 1, 2, 3,
+               4, 3, 2, 1, 1, 2, 2, 3, 5, 3, 4, 6, 6, 4, 4, 7, 8, 7, 4, 3,
+               6, 8, 8, 6, 3, 2, 5, 6, 7, 6, 5, 2, 1, 2, 3, 4, 4, 3, 2, 1};
 
-int w_map_offset[] = {0, 1, 4, 10, 20, 35, 63};
+int w_map_offset[] = {0, 1, 4, 10, 20, 35, 56, 84};
 }
 
 // Produce a vector of angles matching the level-symmetric quadrature of order
@@ -56,6 +57,9 @@ std::vector<Angle> GenSn(int order)
     if (order % 2 != 0) {
         throw EXCEPT("Sn quadrature order must be even.");
     }
+    if (order < 2) {
+        throw EXCEPT("Sn quadrature order must be positive.");
+    }
     if (order > 16) {
         throw EXCEPT("Max supported Sn quadrature order is 16.");
     }
-- 
2.43.0


From 64d881300cf7e242c9b10d37ebc96258c5f1f4ee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 02:03:03 +0000
Subject: [PATCH 15/34] fix: reverse angles of every octant in three dimensions

---
 src/core/angular_quadrature.hpp | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/core/angular_quadrature.hpp b/src/core/angular_quadrature.hpp
index deab430..cd4b2c5 100644
--- a/src/core/angular_quadrature.hpp
+++ b/src/core/angular_quadrature.hpp
@@ -161,7 +161,10 @@ public:
         if (dim == 2) {
             return (iang + ndir_oct_ * 2) % (ndir_oct_ * 4);
         } else {
-            return (iang + ndir_oct_ * 6) % (ndir_oct_ * 8);
+            // Reverse in the x-y plane, then move to the other half-space
+            int half = ndir_oct_ * 4;
+            int rev  = this->reverse(iang, 2);
+            return (int)iang < half ? rev + half : rev;
         }
         return 0;
     }
-- 
2.43.0


From 8b9b8e98f45511dee772cadfcb98cbeb58c3f4d7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 02:03:19 +0000
Subject: [PATCH 16/34] fix: allow assignment to a default-constructed
 quadrature

---
 src/core/angular_quadrature.cpp | 4 +++-
 src/core/angular_quadrature.hpp | 8 +++++++-
 2 files changed, 10 insertions(+), 2 deletions(-)

diff --git a/src/core/angular_quadrature.cpp b/src/core/angular_quadrature.cpp
index 162151b..cc955e6 100644
--- a/src/core/angular_quadrature.cpp
+++ b/src/core/angular_quadrature.cpp
@@ -167,7 +167,9 @@ AngularQuadrature &AngularQuadrature::operator=(const AngularQuadrature &other)
     // First check for compatibility. It is pretty dangerous under most
     // circumstatnces to drastically change an AngularQuadrature after it
     // has been constructed, and potentially used to construct other things.
-    if ((n_polar_ != other.n_polar_) || (n_azimuthal_ != other.n_azimuthal_)) {
+    // A default-constructed quadrature is empty and can become anything.
+    if (!angles_.empty() &&
+        ((n_polar_ != other.n_polar_) || (n_azimuthal_ != other.n_azimuthal_))) {
         std::stringstream msg;
         msg << "Incompatible angular quadrature assignment from other anglular "
                "quadrature!\n";
diff --git a/src/core/angular_quadrature.hpp b/src/core/angular_quadrature.hpp
index cd4b2c5..fe37daf 100644
--- a/src/core/angular_quadrature.hpp
+++ b/src/core/angular_quadrature.hpp
@@ -53,7 +53,13 @@ public:
      */
     AngularQuadrature(const H5Node &input);
 
-    AngularQuadrature(){};
+    AngularQuadrature()
+        : type_(QuadratureType::USER),
+          ndir_oct_(0),
+          n_polar_(-1),
+          n_azimuthal_(-1)
+    {
+    }
 
     AngularQuadrature &operator=(const AngularQuadrature &other);
 
-- 
2.43.0


From 472ad5bc29d4e6bef4a206b79f37c07e140c0798 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 02:07:40 +0000
Subject: [PATCH 17/34] fix: compute the azimuthal angle of directions close to
 an axis

---
 src/core/geometry/direction.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/core/geometry/direction.hpp b/src/core/geometry/direction.hpp
index 74bb370..ee58d0a 100644
--- a/src/core/geometry/direction.hpp
+++ b/src/core/geometry/direction.hpp
@@ -71,9 +71,9 @@ public:
         long double oz_big    = oz;
         long double theta_big = std::acos(oz_big);
         theta                 = theta_big;
-        alpha                 = std::acos(ox_big / std::sin(theta_big));
+        alpha                 = std::atan2((long double)oy, ox_big);
         if (oy < 0.0) {
-            alpha = TWOPI - alpha;
+            alpha += TWOPI;
         }
         rsintheta = 1.0l / std::sin(theta_big);
         return;
-- 
2.43.0


From 392b0c37f1d4b4a36cf83160e2f7a929089d50dd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 02:11:47 +0000
Subject: [PATCH 18/34] fix: do not read past the exponential table at its
 upper end

---
 src/core/exponential.hpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/core/exponential.hpp b/src/core/exponential.hpp
index 25db6ad..aaa7314 100644
--- a/src/core/exponential.hpp
+++ b/src/core/exponential.hpp
@@ -73,7 +73,8 @@ public:
                       << std::endl;
             return std::exp(v);
         }
-        int i = (v - min_) * rspace_;
+        // The upper end of the table belongs to the last interval
+        int i = std::min((int)((v - min_) * rspace_), N - 1);
         v -= space_ * i + min_;
         return d_[i] + (d_[i + 1] - d_[i]) * v * rspace_;
     }
-- 
2.43.0


From 4ee88d670060fb07213ff54a86b0a9614bb54780 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 02:30:09 +0000
Subject: [PATCH 19/34] fix: read correction factors of several planes and
 refuse those that do not fit

---
 src/sweepers/cmdo/correction_data.cpp | 36 ++++++++++++++++++++++-----
 1 file changed, 30 insertions(+), 6 deletions(-)

diff --git a/src/sweepers/cmdo/correction_data.cpp b/src/sweepers/cmdo/correction_data.cpp
index 4e0691e..32cc9db 100644
--- a/src/sweepers/cmdo/correction_data.cpp
+++ b/src/sweepers/cmdo/correction_data.cpp
@@ -86,8 +86,29 @@ void CorrectionData::read_data_single(const pugi::xml_node &data,
 
     H5Node h5d(data.attribute("file").value(), H5Access::READ);
 
+    // Make sure that the data are the right shape. Either one plane, which is
+    // applied to the whole range of planes, or as many planes as the range has
+    auto dims = h5d.dimensions("/alpha_x/000/000");
+    if ((dims.size() != 3) || ((int)dims[2] != nx_) || ((int)dims[1] != ny_)) {
+        throw EXCEPT("Incorrect correction data dimensions");
+    }
+    if ((dims[0] != 1) && ((int)dims[0] != top_plane - bottom_plane + 1)) {
+        throw EXCEPT("Incorrect number of planes in correction data");
+    }
+    if (((int)h5d["/alpha_x"].get()->getNumObjs() != ngroup_) ||
+        ((int)h5d["/alpha_x/000"].get()->getNumObjs() != nang_)) {
+        throw EXCEPT("Incorrect number of groups or angles in correction data");
+    }
+
     // allocate a single buffer to read our data into for each group/angle
-    ArrayB1 inbuf(nx_ * ny_);
+    int per_plane = nx_ * ny_;
+    int n_plane   = dims[0];
+    ArrayB1 inbuf(per_plane * n_plane);
+    // Range of the buffer to be used for a given plane
+    auto plane_range = [&](int ip) {
+        int stt = n_plane == 1 ? 0 : (ip - bottom_plane) * per_plane;
+        return blitz::Range(stt, stt + per_plane - 1);
+    };
 
     for (int ig = 0; ig < ngroup_; ig++) {
         for (int iang = 0; iang < nang_; iang++) {
@@ -105,7 +126,8 @@ void CorrectionData::read_data_single(const pugi::xml_node &data,
                     int stt = mesh_->plane_cell_begin(ip);
                     int stp = mesh_->plane_cell_end(ip) - 1;
                     alpha_(ig, iang, blitz::Range(stt, stp),
-                           (int)Normal::X_NORM) = inbuf;
+                           (int)Normal::X_NORM) =
+                        inbuf(plane_range(ip));
                 }
             }
             // alpha y
@@ -122,7 +144,8 @@ void CorrectionData::read_data_single(const pugi::xml_node &data,
                     int stt = mesh_->plane_cell_begin(ip);
                     int stp = mesh_->plane_cell_end(ip) - 1;
                     alpha_(ig, iang, blitz::Range(stt, stp),
-                           (int)Normal::Y_NORM) = inbuf;
+                           (int)Normal::Y_NORM) =
+                        inbuf(plane_range(ip));
                 }
             }
             // beta
@@ -138,7 +161,8 @@ void CorrectionData::read_data_single(const pugi::xml_node &data,
                 for (int ip = bottom_plane; ip <= top_plane; ip++) {
                     int stt = mesh_->plane_cell_begin(ip);
                     int stp = mesh_->plane_cell_end(ip) - 1;
-                    beta_(ig, iang, blitz::Range(stt, stp)) = inbuf;
+                    beta_(ig, iang, blitz::Range(stt, stp)) =
+                        inbuf(plane_range(ip));
                 }
             }
         }
@@ -168,7 +192,7 @@ void CorrectionData::read_data_multi(const pugi::xml_node &input)
             if ((bot_plane < 0) || (bot_plane >= np)) {
                 throw EXCEPT("Invalid bottom_plane");
             }
-            if ((top_plane < 0) || (top_plane >= np)) {
+            if ((top_plane < bot_plane) || (top_plane >= np)) {
                 throw EXCEPT("Invalid top_plane");
             }
 
@@ -195,7 +219,7 @@ void CorrectionData::read_data_multi(const pugi::xml_node &input)
 
     for (auto data = input.child("data"); data;
          data      = data.next_sibling("data")) {
-        int top_plane = 0;
+        int top_plane = np - 1;
         int bot_plane = 0;
         if (!data.attribute("top_plane").empty()) {
             top_plane = data.attribute("top_plane").as_int();
-- 
2.43.0


From 24cafea345ea0bccabd85397e8b8dbc04c97d3d5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 02:31:21 +0000
Subject: [PATCH 20/34] fix: refuse homogenised cross sections with other
 energy groups or an upside-down plane range

---
 src/core/xs_mesh_homogenized.cpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/core/xs_mesh_homogenized.cpp b/src/core/xs_mesh_homogenized.cpp
index 175a44c..b36bf88 100644
--- a/src/core/xs_mesh_homogenized.cpp
+++ b/src/core/xs_mesh_homogenized.cpp
@@ -383,6 +383,8 @@ void XSMeshHomogenized::read_data_single(const pugi::xml_node &data)
 
     H5Node h5d(data.attribute("file").value(), H5Access::READ);
 
+    h5d.read("/xsmesh/eubounds", eubounds_);
+
     // We are going to want a nice contiguous buffer for storing xs as they
     // come in from the file
     ArrayB1 tr_buf(regions_.size());
@@ -490,7 +492,7 @@ void XSMeshHomogenized::read_data_multi(const pugi::xml_node &input)
             if ((bot_plane < 0) || (bot_plane >= np)) {
                 throw EXCEPT("Invalid bottom_plane");
             }
-            if ((top_plane < 0) || (top_plane >= np)) {
+            if ((top_plane < bot_plane) || (top_plane >= np)) {
                 throw EXCEPT("Invalid top_plane");
             }
 
-- 
2.43.0


From f60bcebfc098f10b84b52bdf991d56f9fb4d8cd2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 02:50:23 +0000
Subject: [PATCH 21/34] fix: currents and surface fluxes of planes swept
 together

---
 src/sweepers/moc/moc_current_worker.hpp | 60 +++++++++++++------------
 1 file changed, 31 insertions(+), 29 deletions(-)

diff --git a/src/sweepers/moc/moc_current_worker.hpp b/src/sweepers/moc/moc_current_worker.hpp
index 9aeb1e2..f3c1dbb 100644
--- a/src/sweepers/moc/moc_current_worker.hpp
+++ b/src/sweepers/moc/moc_current_worker.hpp
@@ -273,46 +273,48 @@ public:
     {
 #pragma omp single
         {
+            auto all          = blitz::Range::all();
+            auto current      = coarse_data_->current(all, group_);
+            auto surface_flux = coarse_data_->surface_flux(all, group_);
+            // Normalize the surface currents. In the presence of subplaning,
+            // the currents coming from the sweeper are stored by macroplane,
+            // packed towards the bottom of the mesh, and were weighted with the
+            // height of the mesh plane that they are stored on.
+            for (int plane = 0; plane <= mesh_->macroplane_index().back();
+                 plane++) {
+                for (int surf = mesh_->plane_surf_xy_begin(plane);
+                     surf != (int)mesh_->plane_surf_end(plane); ++surf) {
+                    real_t area = mesh_->coarse_area(surf);
+                    current(surf) /= area;
+                    surface_flux(surf) /= area;
+                }
+            }
+
             // Check to see if we need to expand the currents across the mesh.
             if ((int)mesh_->nz() - 1 != (mesh_->macroplane_index().back())) {
-                // In the presence of subplaning, the currents coming from the
-                // sweeper are stored by macroplane, packed towards the bottom
-                // of the mesh.  To safely perform an in-place expansion, we
-                // will expand the currents in reverse, filling from the top
-                // down. This prevents over-writing of the source currents from
-                // the MoC sweep before having a chance to expand them, as would
-                // happen if the expansion went from the bottom up.
+                // To safely perform an in-place expansion, we will expand the
+                // currents in reverse, filling from the top down. This prevents
+                // over-writing of the source currents from the MoC sweep before
+                // having a chance to expand them, as would happen if the
+                // expansion went from the bottom up.
                 int iz = mesh_->nz() - 1;
                 for (auto mplane_it = mesh_->macroplane_index().crbegin();
                      mplane_it != mesh_->macroplane_index().crend();
                      ++mplane_it) {
-                    int stt_out = mesh_->plane_surf_xy_begin(iz);
-                    int stp_out = mesh_->plane_surf_end(iz);
-                    int ip      = *mplane_it;
-                    int stt_in  = mesh_->plane_surf_xy_begin(ip);
-                    int stp_in  = mesh_->plane_surf_end(ip);
+                    int ip = *mplane_it;
+                    blitz::Range out(mesh_->plane_surf_xy_begin(iz),
+                                     mesh_->plane_surf_end(iz) - 1);
+                    blitz::Range in(mesh_->plane_surf_xy_begin(ip),
+                                    mesh_->plane_surf_end(ip) - 1);
 
-                    coarse_data_->current(blitz::Range(stt_out, stp_out),
-                                          group_) =
-                        coarse_data_->current(blitz::Range(stt_in, stp_in),
-                                              group_);
+                    if (ip != iz) {
+                        current(out)      = current(in);
+                        surface_flux(out) = surface_flux(in);
+                    }
 
                     iz--;
                 }
             }
-
-            auto all          = blitz::Range::all();
-            auto current      = coarse_data_->current(all, group_);
-            auto surface_flux = coarse_data_->surface_flux(all, group_);
-            // Normalize the surface currents
-            for (size_t plane = 0; plane < mesh_->nz(); plane++) {
-                for (int surf = mesh_->plane_surf_xy_begin(plane);
-                     surf != (int)mesh_->plane_surf_end(plane); ++surf) {
-                    real_t area = mesh_->coarse_area(surf);
-                    current(surf) /= area;
-                    surface_flux(surf) /= area;
-                }
-            }
         }
         return;
     }
-- 
2.43.0


From e4c3c2d355e8f609b6085a604b9c8f4ff3b3b7d6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 02:54:37 +0000
Subject: [PATCH 22/34] fix: cell balance of the multiple-balance axial option

---
 src/sweepers/cmdo/sn_sweeper_cdd_mb.hpp | 6 ++----
 1 file changed, 2 insertions(+), 4 deletions(-)

diff --git a/src/sweepers/cmdo/sn_sweeper_cdd_mb.hpp b/src/sweepers/cmdo/sn_sweeper_cdd_mb.hpp
index c6a5afc..9ed4951 100644
--- a/src/sweepers/cmdo/sn_sweeper_cdd_mb.hpp
+++ b/src/sweepers/cmdo/sn_sweeper_cdd_mb.hpp
@@ -42,8 +42,6 @@ public:
                     real_t xstr, int i, const ThreadState &t_state) const
     {
         int ix    = i % mesh_.nx();
-        int iz    = i % mesh_.nx() * mesh_.ny();
-        real_t dz = mesh_.dz(iz);
         int ia = t_state.macroplane * this->plane_size_ + i % this->plane_size_;
         real_t tx = t_state.ox / mesh_.dx(ix);
 
@@ -56,11 +54,11 @@ public:
         real_t gx = 0.5;//ax * b;
         real_t gy = 0.5;//ay * b;
 
-        real_t psi = q - (dz * t_state.oz * q) / (2.0 * t_state.tz + xstr) +
+        real_t psi = q - (t_state.tz * q) / (2.0 * t_state.tz + xstr) +
                      2.0 * (tx * flux_x + t_state.ty * flux_y) +
                      t_state.tz * flux_z;
         psi /= tx / gx + t_state.ty / gy +
-               (t_state.oz * t_state.oz) / (t_state.tz + 0.5 * xstr) + xstr;
+               (t_state.tz * t_state.tz) / (t_state.tz + 0.5 * xstr) + xstr;
 
         flux_x = psi / gx - flux_x;
         flux_y = psi / gy - flux_y;
-- 
2.43.0


From dca83da724b272c97308d930f81da87409ad0b03 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 03:07:07 +0000
Subject: [PATCH 23/34] fix: imposing pin fluxes on the sweepers

The discrete-ordinates sweeper produced 0/0 where it held no flux and
reported no residual for groups of planes.  The characteristics sweeper
discarded the axial average of per-plane fluxes.  The coupled sweeper
projected its grouped flux as if it were per plane.
---
 src/sweepers/cmdo/plane_sweeper_2d3d.cpp |  3 ++-
 src/sweepers/moc/moc_sweeper.cpp         |  4 +++-
 src/sweepers/sn/sn_sweeper.hpp           | 27 +++++++++++++-----------
 3 files changed, 20 insertions(+), 14 deletions(-)

diff --git a/src/sweepers/cmdo/plane_sweeper_2d3d.cpp b/src/sweepers/cmdo/plane_sweeper_2d3d.cpp
index e8632ef..fed4f8e 100644
--- a/src/sweepers/cmdo/plane_sweeper_2d3d.cpp
+++ b/src/sweepers/cmdo/plane_sweeper_2d3d.cpp
@@ -172,7 +172,8 @@ void PlaneSweeper_2D3D::sweep(int group)
                                  MeshTreatment::PIN_PLANE);
 
     if (do_mocproject_) {
-        sn_sweeper_->set_pin_flux_1g(group, prev_moc_flux);
+        sn_sweeper_->set_pin_flux_1g(group, prev_moc_flux,
+                                     MeshTreatment::PIN_PLANE);
     }
 
     // Sn sweeper
diff --git a/src/sweepers/moc/moc_sweeper.cpp b/src/sweepers/moc/moc_sweeper.cpp
index 45c9b2c..1f2a07c 100644
--- a/src/sweepers/moc/moc_sweeper.cpp
+++ b/src/sweepers/moc/moc_sweeper.cpp
@@ -394,7 +394,9 @@ real_t MoCSweeper::set_pin_flux_1g(int group, const ArrayB1 &pin_flux,
             plane_pin_flux(i) /= mesh_.macroplane_heights()[iz];
         }
     case MeshTreatment::PIN_PLANE: {
-        plane_pin_flux = pin_flux;
+        if (treatment == MeshTreatment::PIN_PLANE) {
+            plane_pin_flux = pin_flux;
+        }
         int iz       = 0;
         int ireg     = 0;
         for (const auto &mplane : mesh_.macroplanes()) {
diff --git a/src/sweepers/sn/sn_sweeper.hpp b/src/sweepers/sn/sn_sweeper.hpp
index 41981d0..7e3f8db 100644
--- a/src/sweepers/sn/sn_sweeper.hpp
+++ b/src/sweepers/sn/sn_sweeper.hpp
@@ -110,7 +110,7 @@ public:
         case MeshTreatment::PIN: {
             int i = 0;
             for (auto &v : pin_flux) {
-                real_t e = flux_(1, group) - v;
+                real_t e = flux_(i, (int)group) - v;
                 resid += e * e;
                 flux_((int)i, (int)group) = v;
                 i++;
@@ -122,23 +122,26 @@ public:
             ArrayB1 plane_pin_flux(mesh_.n_reg(MeshTreatment::PIN_PLANE));
             this->get_pin_flux_1g(group, plane_pin_flux,
                                   MeshTreatment::PIN_PLANE);
-            plane_pin_flux /= pin_flux;
 
             int n_per_plane = mesh_.nx() * mesh_.ny();
             int mplane_stt  = 0;
-            int mplane_stp  = 0;
             for (const auto &mplane : mesh_.macroplanes()) {
-                mplane_stp = mplane_stt + n_per_plane;
-
-                for (int iz = mplane.iz_min; iz <= mplane.iz_max; iz++) {
-                    flux_(blitz::Range(mesh_.plane_cell_begin(iz),
-                                       mesh_.plane_cell_end(iz) - 1),
-                          group) /=
-                        plane_pin_flux(
-                            blitz::Range(mplane_stt, mplane_stp - 1));
+                for (int i = 0; i < n_per_plane; i++) {
+                    real_t new_flux = pin_flux(mplane_stt + i);
+                    real_t old_flux = plane_pin_flux(mplane_stt + i);
+                    real_t e        = old_flux - new_flux;
+                    resid += e * e;
+                    for (int iz = mplane.iz_min; iz <= mplane.iz_max; iz++) {
+                        real_t &v =
+                            flux_((int)mesh_.plane_cell_begin(iz) + i, group);
+                        // With no flux present there is no axial shape to
+                        // preserve
+                        v = (old_flux > 0.0) ? v * (new_flux / old_flux)
+                                             : new_flux;
+                    }
                 }
 
-                mplane_stt = mplane_stp;
+                mplane_stt += n_per_plane;
             }
         } break;
 
-- 
2.43.0


From 92f204874df901b62f6179eb7a6fafa22aa1a8f4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 03:27:52 +0000
Subject: [PATCH 24/34] fix: transport source and external source

The external source was indexed by region and group although its data is
ordered by group and region.  The source handed to a sweep ignored the
transport cross sections in use.  The leakage splitting was used without
being initialised.
---
 src/core/source.cpp              | 2 +-
 src/core/source_isotropic.cpp    | 2 +-
 src/sweepers/moc/moc_sweeper.cpp | 1 +
 3 files changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/core/source.cpp b/src/core/source.cpp
index 7900804..d0f577b 100644
--- a/src/core/source.cpp
+++ b/src/core/source.cpp
@@ -42,7 +42,7 @@ void Source::initialize_group(int ig)
 {
     if (has_external_) {
         for (int ireg = 0; ireg < (int)n_reg_; ireg++) {
-            source_1g_[ireg] = external_source_(ireg, ig);
+            source_1g_[ireg] = external_source_(ig, ireg);
         }
     }
     else {
diff --git a/src/core/source_isotropic.cpp b/src/core/source_isotropic.cpp
index 2d3b205..ebfde1e 100644
--- a/src/core/source_isotropic.cpp
+++ b/src/core/source_isotropic.cpp
@@ -26,8 +26,8 @@ void SourceIsotropic::self_scatter(size_t ig, const ArrayB1 &xstr)
         for (auto &xsr : *xs_mesh_) {
             const ScatteringRow &scat_row = xsr.xsmacsc().to(ig);
             real_t xssc                   = scat_row[ig];
-            real_t r_fpi_tr               = 1.0 / (xsr.xsmactr(ig) * FPI);
             for (const int ireg : xsr.reg()) {
+                real_t r_fpi_tr = 1.0 / (xstr(ireg) * FPI);
                 q_[ireg] = (source_1g_[ireg] + flux_1g(ireg) * xssc) * r_fpi_tr;
             }
         }
diff --git a/src/sweepers/moc/moc_sweeper.cpp b/src/sweepers/moc/moc_sweeper.cpp
index 1f2a07c..ed8013c 100644
--- a/src/sweepers/moc/moc_sweeper.cpp
+++ b/src/sweepers/moc/moc_sweeper.cpp
@@ -119,6 +119,7 @@ MoCSweeper::MoCSweeper(const pugi::xml_node &input, const CoreMesh &mesh)
     allow_splitting_ = input.attribute("tl_splitting").as_bool(false);
     if (allow_splitting_) {
         split_.resize(n_reg_);
+        split_ = 0.0;
     }
 
     // Sanity-check the subplane parameters. We will operate on the assumption
-- 
2.43.0


From 64b6b70106c690ce96f7ad03890277d44d06b17d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 03:31:35 +0000
Subject: [PATCH 25/34] fix: random numbers at the ends of their range

The largest states of the generator were rounded to one, so that integers
and bins out of range could be drawn.  A state of zero selected a first
bin of zero probability.
---
 src/util/rng_lcg.hpp | 20 +++++++++++++++-----
 1 file changed, 15 insertions(+), 5 deletions(-)

diff --git a/src/util/rng_lcg.hpp b/src/util/rng_lcg.hpp
index cd5a088..2f19dc5 100644
--- a/src/util/rng_lcg.hpp
+++ b/src/util/rng_lcg.hpp
@@ -16,9 +16,11 @@
 
 #pragma once
 
+#include <algorithm>
 #include <cassert>
 #include <cstdint>
 #include <iostream>
+#include <limits>
 #include <random>
 
 #include "util/force_inline.hpp"
@@ -61,7 +63,9 @@ public:
      */
     real_t random()
     {
-        return float_scale_ * (*this)();
+        // Conversion of the largest states to floating point rounds up
+        real_t v = float_scale_ * (*this)();
+        return v < one_minus_eps_ ? v : +one_minus_eps_;
     }
 
     /**
@@ -72,8 +76,7 @@ public:
     {
         assert(ubound > 0.0);
 
-        real_t v = float_scale_ * (*this)();
-        return v * ubound;
+        return this->random() * ubound;
     }
 
     /**
@@ -115,8 +118,12 @@ public:
     {
         assert(fp_equiv_ulp(cdf.back(), 1.0));
         real_t v = this->random();
-        return std::distance(cdf.begin(),
-                             std::lower_bound(cdf.begin(), cdf.end(), v));
+        auto it  = std::upper_bound(cdf.begin(), cdf.end(), v);
+        if (it == cdf.end()) {
+            // The last entry may be off by round-off
+            it = std::lower_bound(cdf.begin(), cdf.end(), cdf.back());
+        }
+        return std::distance(cdf.begin(), it);
     }
 
     /**
@@ -163,6 +170,9 @@ private:
     static const uint64_t mask_     = ~(UINT64_C(1) << 63);
     static const uint64_t mod_      = UINT64_C(1) << 63;
     static constexpr real_t float_scale_ = 1.0 / (UINT64_C(1) << 63);
+    // Largest number below unity
+    static constexpr real_t one_minus_eps_ =
+        1.0 - 0.5 * std::numeric_limits<real_t>::epsilon();
 };
 
 } // namespace mocc
-- 
2.43.0


From 047de5a8c830c73aadec2bfaf6da567f6a344de9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 03:33:28 +0000
Subject: [PATCH 26/34] fix: deviation of tallies and bookkeeping of the
 fission bank

The relative deviation of spatial tallies depended on the volumes, and
round-off could make it not a number.  A new fission bank did not start
with zero production, and its entropy accepted one cell too many.
---
 src/sweepers/mc/fission_bank.cpp  |  5 +++--
 src/sweepers/mc/tally_scalar.hpp  |  5 ++++-
 src/sweepers/mc/tally_spatial.hpp | 11 ++++++++---
 3 files changed, 15 insertions(+), 6 deletions(-)

diff --git a/src/sweepers/mc/fission_bank.cpp b/src/sweepers/mc/fission_bank.cpp
index d0fa6b0..28ab308 100644
--- a/src/sweepers/mc/fission_bank.cpp
+++ b/src/sweepers/mc/fission_bank.cpp
@@ -22,7 +22,8 @@
 
 namespace mocc {
 namespace mc {
-FissionBank::FissionBank(const CoreMesh &mesh) : mesh_(mesh)
+FissionBank::FissionBank(const CoreMesh &mesh)
+    : mesh_(mesh), total_fission_(0.0)
 {
     return;
 }
@@ -93,7 +94,7 @@ real_t FissionBank::shannon_entropy() const
 
     for (const auto &p : sites_) {
         int icell = mesh_.coarse_cell_point(p.location_global);
-        if (icell < 0 || icell > (int)mesh_.n_pin()) {
+        if (icell < 0 || icell >= (int)mesh_.n_pin()) {
             std::stringstream msg;
             msg << "Couldnt locate particle: " << p << std::endl;
             throw EXCEPT(msg.str());
diff --git a/src/sweepers/mc/tally_scalar.hpp b/src/sweepers/mc/tally_scalar.hpp
index eda32b2..b36d98f 100644
--- a/src/sweepers/mc/tally_scalar.hpp
+++ b/src/sweepers/mc/tally_scalar.hpp
@@ -16,6 +16,8 @@
 
 #pragma once
 
+#include <algorithm>
+#include <cmath>
 #include <iostream>
 #include <utility>
 #include "util/global_config.hpp"
@@ -88,7 +90,8 @@ public:
         val.first  = mean;
         val.second = 1.0 / (weight_ - 1.0) *
                      ((1.0 / weight_) * sum_square_ - mean * mean);
-        val.second = std::sqrt(val.second) / mean;
+        // Guard against round-off when there is little variation
+        val.second = std::sqrt(std::max((real_t)0.0, val.second)) / mean;
         return val;
     }
 
diff --git a/src/sweepers/mc/tally_spatial.hpp b/src/sweepers/mc/tally_spatial.hpp
index 9abfbf1..a232b4e 100644
--- a/src/sweepers/mc/tally_spatial.hpp
+++ b/src/sweepers/mc/tally_spatial.hpp
@@ -16,8 +16,12 @@
 
 #pragma once
 
+#include <algorithm>
+#include <cassert>
+#include <cmath>
 #include <iostream>
 #include <utility>
+#include <vector>
 #include "util/global_config.hpp"
 
 namespace mocc {
@@ -129,10 +133,11 @@ public:
             real_t square_of_mean =
                 data_[i].first * data_[i].first / (n_ * (n_ - 1.0));
             real_t mean_of_square = data_[i].second / (n_ - 1.0);
-            real_t variance       = mean_of_square - square_of_mean;
+            // Guard against round-off when there is little variation
+            real_t variance =
+                std::max((real_t)0.0, mean_of_square - square_of_mean);
 
-            ret.push_back({mean * r_norm,
-                           std::sqrt(variance * r_norm) / (mean * r_norm)});
+            ret.push_back({mean * r_norm, std::sqrt(variance) / mean});
         }
 
         return ret;
-- 
2.43.0


From 430d47257550f2e27bfcefe598aa722d698033a2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 03:45:06 +0000
Subject: [PATCH 27/34] fix: reading of number lists and brace groups

Numbers next to an opening brace were cut off, unmatched closing braces
and numbers run together were accepted, and white space after the radii
of a pin was refused.
---
 src/core/pin_mesh_cyl.cpp | 18 ++++--------------
 src/util/string_utils.cpp | 16 ++++++++++++----
 2 files changed, 16 insertions(+), 18 deletions(-)

diff --git a/src/core/pin_mesh_cyl.cpp b/src/core/pin_mesh_cyl.cpp
index 1f78a06..32eb14e 100644
--- a/src/core/pin_mesh_cyl.cpp
+++ b/src/core/pin_mesh_cyl.cpp
@@ -37,21 +37,11 @@ PinMesh_Cyl::PinMesh_Cyl(const pugi::xml_node &input) : PinMesh(input)
 {
     // Extract the radii and check for sanity
     {
-        stringstream radiiIn(input.child("radii").child_value());
-        while (!radiiIn.eof()) {
-            mocc::real_t rad;
-            radiiIn >> rad;
-            xs_radii_.push_back(rad);
-
-            if (radiiIn.fail()) {
-                stringstream msg;
-                msg << "Ran into a problem reading radii for pin ID=" << id_;
-                throw EXCEPT(msg.str().c_str());
-            }
-        }
-        if (!radiiIn.eof()) {
+        xs_radii_ = explode_string<real_t>(input.child("radii").child_value());
+        if (xs_radii_.empty()) {
             stringstream msg;
-            msg << "Dangling data in radii for pin ID=" << id_;
+            msg << "Ran into a problem reading radii for pin ID=" << id_;
+            throw EXCEPT(msg.str().c_str());
         }
         // Make sure the radii are ordered
         for (unsigned int i = 0; i < xs_radii_.size() - 1; i++) {
diff --git a/src/util/string_utils.cpp b/src/util/string_utils.cpp
index aac7638..523cd89 100644
--- a/src/util/string_utils.cpp
+++ b/src/util/string_utils.cpp
@@ -70,10 +70,15 @@ template <typename T> std::vector<T> explode_string(std::string data)
 
     // Store the string as a stream and try to read all entries
     std::stringstream inBuf(data);
-    T i;
+    std::string token;
     while (!inBuf.eof()) {
-        inBuf >> i;
-        if (!inBuf.fail()) {
+        // Each entry should be a number, the whole number, and nothing but the
+        // number
+        inBuf >> token;
+        std::stringstream entry(token);
+        T i;
+        entry >> i;
+        if (!entry.fail() && entry.eof()) {
             out.push_back(i);
         } else {
             std::stringstream msg;
@@ -129,6 +134,9 @@ std::vector<std::vector<int>> explode_braces(std::string data)
         }
         if (c == '}') {
             brace_depth--;
+            if (brace_depth < 0) {
+                break;
+            }
             continue;
         }
     }
@@ -146,7 +154,7 @@ std::vector<std::vector<int>> explode_braces(std::string data)
         pos_stp = data.find('}', pos_stt);
         if (pos_stt - pos > 0) {
             std::vector<int> naked_ints =
-                explode_string<int>(data.substr(pos, pos_stt - pos - 1));
+                explode_string<int>(data.substr(pos, pos_stt - pos));
             if (naked_ints.size() > 0) {
                 for (const auto &v : naked_ints) {
                     out.push_back(std::vector<int>(1, v));
-- 
2.43.0


From f6f4bdcb42ec9edf5150d38bc0c4cb39658b45f5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 03:45:06 +0000
Subject: [PATCH 28/34] fix: mis-sized data and missing objects in HDF5 files

Data of another rank, several values for a scalar and sizes that do not
match the dimensions were read or written past the end of the buffer.
Missing files and groups now raise the exception that the rest of the
code handles, and arrays in another memory order are not scrambled.
---
 src/util/h5file.cpp | 30 ++++++++++++++++++++++++++++--
 src/util/h5file.hpp | 45 ++++++++++++++++++++++++++++++++++++++-------
 2 files changed, 66 insertions(+), 9 deletions(-)

diff --git a/src/util/h5file.cpp b/src/util/h5file.cpp
index b5e85ee..48a414d 100644
--- a/src/util/h5file.cpp
+++ b/src/util/h5file.cpp
@@ -34,8 +34,22 @@ unsigned int convert_access(mocc::H5Access access)
 }
 
 namespace mocc {
+namespace {
+std::shared_ptr<H5::H5File> open_file(const char *filename,
+                                      H5Access access)
+{
+    try {
+        return std::make_shared<H5::H5File>(filename, convert_access(access));
+    } catch (...) {
+        std::stringstream msg;
+        msg << "Failed to open HDF5 file: " << filename;
+        throw EXCEPT(msg.str());
+    }
+}
+}
+
 H5Node::H5Node(const char *filename, H5Access access)
-    : file_(new H5::H5File(filename, convert_access(access))),
+    : file_(open_file(filename, access)),
       node_(file_),
       access_(access)
 {
@@ -131,7 +145,10 @@ void H5Node::write(std::string path, const VecF &data, VecI dims)
         dims_a[i] = dims[i];
         size *= dims[i];
     }
-    assert(size == data.size());
+    if (size != (int)data.size()) {
+        delete[] dims_a;
+        throw EXCEPT("Data size and dimensions disagree.");
+    }
 
     try {
         H5::DataSpace space(dims.size(), dims_a);
@@ -156,8 +173,13 @@ void H5Node::write(std::string path, const ArrayB1 &data, VecI dims)
     }
     std::vector<hsize_t> dims_a;
     dims_a.reserve(dims.size());
+    int size = 1;
     for (const auto &v : dims) {
         dims_a.push_back(v);
+        size *= v;
+    }
+    if (size != (int)data.size()) {
+        throw EXCEPT("Data size and dimensions disagree.");
     }
 
     try {
@@ -176,6 +198,10 @@ void H5Node::write(std::string path, const ArrayB1 &data, VecI dims)
 
 void H5Node::read_1d(std::string path, ArrayB1 &data) const
 {
+    if ((data.size() > 0) && !data.isStorageContiguous()) {
+        throw EXCEPT("Data is not contiguous.");
+    }
+
     H5::DataSet dataset;
     H5::DataSpace dataspace;
     int h5size = -1;
diff --git a/src/util/h5file.hpp b/src/util/h5file.hpp
index 77694f8..037b861 100644
--- a/src/util/h5file.hpp
+++ b/src/util/h5file.hpp
@@ -113,7 +113,14 @@ public:
      */
     H5Node operator[](std::string path)
     {
-        std::shared_ptr<H5::CommonFG> g(new H5::Group(node_->openGroup(path)));
+        std::shared_ptr<H5::CommonFG> g;
+        try {
+            g.reset(new H5::Group(node_->openGroup(path)));
+        } catch (...) {
+            std::stringstream msg;
+            msg << "Failed to open group: " << path;
+            throw EXCEPT(msg.str());
+        }
         return H5Node(g, access_);
     }
 
@@ -163,6 +170,9 @@ public:
         if (!data.isStorageContiguous()) {
             throw EXCEPT("Blitz data is not contiguous.");
         }
+        if (!is_row_major(data)) {
+            throw EXCEPT("Blitz data is not stored in row-major order.");
+        }
 
         int ndim = data.dimensions();
         std::vector<hsize_t> dims;
@@ -270,6 +280,9 @@ public:
         if ((data.size() > 0) && !data.isStorageContiguous()) {
             throw EXCEPT("Blitz data is not contiguous");
         }
+        if (!is_row_major(data)) {
+            throw EXCEPT("Blitz data is not stored in row-major order.");
+        }
 
         H5::DataSet dataset;
         H5::DataSpace dataspace;
@@ -289,9 +302,6 @@ public:
             throw EXCEPT(msg.str().c_str());
         }
 
-        if ((int)ndim != data.dimensions()) {
-        }
-
         auto shape = data.shape();
         auto size  = data.size();
 
@@ -317,6 +327,10 @@ public:
                 }
             } else {
                 // Make sure the dimensions match
+                if (data.dimensions() != ndim) {
+                    throw EXCEPT(
+                        "Array and dataset dimensionality disagree.");
+                }
                 for (int i = 0; i < ndim; i++) {
                     if (shape[i] != (int)dims[i]) {
                         throw EXCEPT("Incorrect array shape.");
@@ -353,6 +367,10 @@ public:
             throw EXCEPT(msg.str().c_str());
         }
 
+        if (dataspace.getSimpleExtentNpoints() != 1) {
+            throw EXCEPT("Dataset is not a scalar value.");
+        }
+
         try {
             dataset.read(&data, H5::PredType::NATIVE_INT);
         } catch (...) {
@@ -384,9 +402,10 @@ public:
             dims_a.push_back(di);
         }
 
-        VecF d(n);
-        std::copy(first, last, d.begin());
-        assert((int)d.size() == n);
+        VecF d(first, last);
+        if ((int)d.size() != n) {
+            throw EXCEPT("Data size and dimensions disagree.");
+        }
 
         try {
             H5::DataSpace space(dims.size(), dims_a.data());
@@ -404,6 +423,18 @@ public:
 private:
     H5Node(std::shared_ptr<H5::CommonFG> node_, H5Access access);
 
+    // Return whether the memory order of the array is that of HDF5 data
+    template <class BlitzArray> static bool is_row_major(const BlitzArray &data)
+    {
+        for (int i = 0; i < data.dimensions(); i++) {
+            if ((data.ordering(i) != data.dimensions() - 1 - i) ||
+                !data.isRankStoredAscending(i)) {
+                return false;
+            }
+        }
+        return true;
+    }
+
     // Pointer to the file object. Null if not the root node of the file.
     std::shared_ptr<H5::H5File> file_;
     std::shared_ptr<H5::CommonFG> node_;
-- 
2.43.0


From efe66601ad82cc4b4878049d2f864d3f087631b2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 04:00:25 +0000
Subject: [PATCH 29/34] fix: invalid geometry and material input

Unknown pins, negative dimensions, radii, subdivisions and heights that
are not positive, unknown materials in fissile pins, repeated material
identifiers and names, malformed library headers and angles without a
polar angle led to crashes or were accepted silently.
---
 src/core/assembly.cpp       |  6 +++++-
 src/core/core.cpp           |  2 +-
 src/core/geometry/angle.cpp |  2 +-
 src/core/lattice.cpp        |  5 ++++-
 src/core/material_lib.cpp   | 21 +++++++++++++--------
 src/core/pin.cpp            |  1 -
 src/core/pin_mesh_base.cpp  |  2 +-
 src/core/pin_mesh_cyl.cpp   | 13 +++++++++++--
 8 files changed, 36 insertions(+), 16 deletions(-)

diff --git a/src/core/assembly.cpp b/src/core/assembly.cpp
index 56e00b6..306177c 100644
--- a/src/core/assembly.cpp
+++ b/src/core/assembly.cpp
@@ -38,7 +38,7 @@ Assembly::Assembly(const pugi::xml_node &input,
 
     // Parse number of planes
     nz_ = input.attribute("np").as_int(0);
-    if (nz_ == 0) {
+    if ((int)nz_ < 1) {
         throw EXCEPT(
             "Invalid number of planes (nz) when parsing "
             "assembly.");
@@ -76,6 +76,10 @@ Assembly::Assembly(const pugi::xml_node &input,
         std::reverse(dz_.begin(), dz_.end());
     }
 
+    if (dz_.empty() || *std::min_element(dz_.begin(), dz_.end()) <= 0.0) {
+        throw EXCEPT("Plane heights should be positive.");
+    }
+
     // Parse lattice IDs
     if (input.child("lattices").empty()) {
         throw EXCEPT("No lattices specified!");
diff --git a/src/core/core.cpp b/src/core/core.cpp
index 5db1fae..1e733dd 100644
--- a/src/core/core.cpp
+++ b/src/core/core.cpp
@@ -48,7 +48,7 @@ Core::Core(const pugi::xml_node &input,
     : nx_(input.attribute("nx").as_int(0)), ny_(input.attribute("ny").as_int(0))
 {
     // Make sure that we read the a proper ID
-    if ((nx_ < 1) | (ny_ < 1)) {
+    if (((int)nx_ < 1) | ((int)ny_ < 1)) {
         throw EXCEPT("Invalid core dimensions.");
     }
 
diff --git a/src/core/geometry/angle.cpp b/src/core/geometry/angle.cpp
index 340519b..c7ef11b 100644
--- a/src/core/geometry/angle.cpp
+++ b/src/core/geometry/angle.cpp
@@ -89,7 +89,7 @@ Angle::Angle(const pugi::xml_node &input)
         // vertical polar angles. Azimuthal angle is allowed to be zero, but
         // less than 2*pi, to avoid overlapping angles on the positive
         // x-axis.
-        if (theta <= -HPI || theta >= HPI) {
+        if (theta <= -HPI || theta >= HPI || theta == 0.0) {
             throw EXCEPT("Invalid polar angle.");
         }
         if ((alpha < 0.0) || (alpha >= TWOPI) || (alpha == 0.0) ||
diff --git a/src/core/lattice.cpp b/src/core/lattice.cpp
index b69d1cd..1b68a5c 100644
--- a/src/core/lattice.cpp
+++ b/src/core/lattice.cpp
@@ -40,7 +40,7 @@ Lattice::Lattice(const pugi::xml_node &input,
     // Get dimensions
     nx_ = input.attribute("nx").as_int(0);
     ny_ = input.attribute("ny").as_int(0);
-    if ((nx_ == 0) | (ny_ == 0)) {
+    if (((int)nx_ < 1) | ((int)ny_ < 1)) {
         throw EXCEPT("Trouble reading lattice dimensions.");
     }
 
@@ -61,6 +61,9 @@ Lattice::Lattice(const pugi::xml_node &input,
         for (unsigned int ix = 0; ix < nx_; ix++) {
             unsigned int col       = ix;
             int pin_id             = pin_ids[iy * nx_ + ix];
+            if (pins.count(pin_id) == 0) {
+                throw EXCEPT("Unrecognized pin ID in lattice.");
+            }
             pins_[row * nx_ + col] = pins.at(pin_id).get();
         }
     }
diff --git a/src/core/material_lib.cpp b/src/core/material_lib.cpp
index 9c45e76..d8ddcf7 100644
--- a/src/core/material_lib.cpp
+++ b/src/core/material_lib.cpp
@@ -98,7 +98,9 @@ MaterialLib::MaterialLib(const pugi::xml_node &input) : n_material_(0)
 
         regex headExp("^\\s*XSMACRO\\s+([^\\s]+)\\s+([0-9]+)\\s*$");
         smatch results;
-        regex_match(line, results, headExp);
+        if (!regex_match(line, results, headExp)) {
+            throw EXCEPT("Trouble reading material header from library!");
+        }
         string materialName = results[1].str();
 
         // Read in the non-scattering stuff
@@ -131,9 +133,7 @@ MaterialLib::MaterialLib(const pugi::xml_node &input) : n_material_(0)
 
         // produce a Material object and add it to the library
         lib_materials_.push_back(Material(abs, nuFiss, fiss, chi, scatTable));
-        try {
-            material_names_[materialName] = imat;
-        } catch (...) {
+        if (!material_names_.emplace(materialName, imat).second) {
             throw EXCEPT("Failed to add material from library. Duplicate "
                          "name?");
         }
@@ -188,7 +188,9 @@ MaterialLib::MaterialLib(FileScrubber &input) : n_material_(0)
 
         regex headExp("^\\s*XSMACRO\\s+([^\\s]+)\\s+([0-9]+)\\s*$");
         smatch results;
-        regex_match(line, results, headExp);
+        if (!regex_match(line, results, headExp)) {
+            throw EXCEPT("Trouble reading material header from library!");
+        }
         string materialName = results[1].str();
 
         // Read in the non-scattering stuff
@@ -228,9 +230,7 @@ MaterialLib::MaterialLib(FileScrubber &input) : n_material_(0)
 
         // produce a Material object and add it to the library
         lib_materials_.push_back(Material(abs, nuFiss, fiss, chi, scatTable));
-        try {
-            material_names_[materialName] = imat;
-        } catch (...) {
+        if (!material_names_.emplace(materialName, imat).second) {
             throw EXCEPT("Failed to add material from library. Duplicate "
                          "name?");
         }
@@ -243,6 +243,11 @@ void MaterialLib::assignID(int id, std::string name)
         LogFile << "Mapping material '" << name << "' to ID " << id
                 << std::endl;
         int mat_index = material_names_.at(name);
+        if (material_ids_.count(id) > 0) {
+            std::stringstream msg;
+            msg << "Duplicate material ID (" << id << ")";
+            throw EXCEPT(msg.str());
+        }
         assigned_materials_.push_back(lib_materials_[mat_index]);
         material_dense_index_[id] = n_material_;
         material_ids_[id]         = mat_index;
diff --git a/src/core/pin.cpp b/src/core/pin.cpp
index 97ab90e..f568be2 100644
--- a/src/core/pin.cpp
+++ b/src/core/pin.cpp
@@ -73,7 +73,6 @@ Pin::Pin(const pugi::xml_node &input, const PinMesh_Map_t &meshes,
         const auto &mat = mat_lib[mid];
         if (mat.is_fissile()) {
             is_fuel_ = true;
-            break;
         }
     }
 
diff --git a/src/core/pin_mesh_base.cpp b/src/core/pin_mesh_base.cpp
index aca3d29..dab4bcd 100644
--- a/src/core/pin_mesh_base.cpp
+++ b/src/core/pin_mesh_base.cpp
@@ -25,7 +25,7 @@ PinMesh::PinMesh(const pugi::xml_node &input)
     // Extract pin id
     id_ = input.attribute("id").as_int(-1);
 
-    if (id_ < 0) {
+    if (id_ <= 0) {
         throw EXCEPT("Failed to read pin ID.");
     }
 
diff --git a/src/core/pin_mesh_cyl.cpp b/src/core/pin_mesh_cyl.cpp
index 32eb14e..00481df 100644
--- a/src/core/pin_mesh_cyl.cpp
+++ b/src/core/pin_mesh_cyl.cpp
@@ -45,7 +45,7 @@ PinMesh_Cyl::PinMesh_Cyl(const pugi::xml_node &input) : PinMesh(input)
         }
         // Make sure the radii are ordered
         for (unsigned int i = 0; i < xs_radii_.size() - 1; i++) {
-            if (xs_radii_[i] > xs_radii_[i + 1]) {
+            if (xs_radii_[i] >= xs_radii_[i + 1]) {
                 // The radii are not ordered. Pitch a fit
                 stringstream msg;
                 msg << "Pin radii do not appear to be ordered for pin ID="
@@ -54,6 +54,10 @@ PinMesh_Cyl::PinMesh_Cyl(const pugi::xml_node &input) : PinMesh(input)
             }
         }
 
+        if (xs_radii_.front() <= 0.0) {
+            throw EXCEPT("Pin radii should be positive.");
+        }
+
         // Make sure the last radius is smaller than a half-pitch
         if (xs_radii_.back() > pitch_x_ * 0.5) {
             throw EXCEPT("Largest radius is too big!");
@@ -81,7 +85,7 @@ PinMesh_Cyl::PinMesh_Cyl(const pugi::xml_node &input) : PinMesh(input)
         // Make sure that the azimuthal division is even and <=8. One of
         // these days, ill solve the more general problem of any number of
         // azis.
-        if ((sub_azi_[0] % 2 != 0) | (sub_azi_[0] > 8)) {
+        if ((sub_azi_[0] % 2 != 0) | (sub_azi_[0] > 8) | (sub_azi_[0] < 1)) {
             throw EXCEPT("Only supporting even azimuthal subdivisions "
                          "<=8.");
         }
@@ -95,6 +99,11 @@ PinMesh_Cyl::PinMesh_Cyl(const pugi::xml_node &input) : PinMesh(input)
         if ((int)sub_rad_.size() != (n_xsreg_ - 1)) {
             throw EXCEPT("Wrong number of radial subdivisions specified.");
         }
+        for (const auto n : sub_rad_) {
+            if (n < 1) {
+                throw EXCEPT("Invalid radial subdivision specified.");
+            }
+        }
     }
 
     //
-- 
2.43.0


From a7775994f92f52213989095b870375cd656a6a06 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 04:00:25 +0000
Subject: [PATCH 30/34] fix: invalid solver input

A negative iteration limit of the fixed source solver and an unknown
scattering treatment of the 2D3D sweeper were accepted, and a fission
box outside of the core, a negative number of particles and an empty
fission bank led to crashes.
---
 src/solvers/fixed_source_solver.cpp      |  2 +-
 src/sweepers/cmdo/plane_sweeper_2d3d.hpp |  6 ++++++
 src/sweepers/mc/fission_bank.cpp         | 17 ++++++++++++++++-
 3 files changed, 23 insertions(+), 2 deletions(-)

diff --git a/src/solvers/fixed_source_solver.cpp b/src/solvers/fixed_source_solver.cpp
index cd47f95..2872f10 100644
--- a/src/solvers/fixed_source_solver.cpp
+++ b/src/solvers/fixed_source_solver.cpp
@@ -43,7 +43,7 @@ FixedSourceSolver::FixedSourceSolver(const pugi::xml_node &input,
 
         // Iteration limit
         max_iter_ = input.attribute("max_iter").as_int(-1);
-        if (max_iter_ <= 0) {
+        if ((int)max_iter_ <= 0) {
             throw EXCEPT("Failed to parse reasonable number of maximum "
                          "iterations.");
         }
diff --git a/src/sweepers/cmdo/plane_sweeper_2d3d.hpp b/src/sweepers/cmdo/plane_sweeper_2d3d.hpp
index a306a9c..265be34 100644
--- a/src/sweepers/cmdo/plane_sweeper_2d3d.hpp
+++ b/src/sweepers/cmdo/plane_sweeper_2d3d.hpp
@@ -19,6 +19,7 @@
 #include <blitz/array.h>
 #include "util/global_config.hpp"
 #include "util/pugifwd.hpp"
+#include "util/string_utils.hpp"
 #include "core/angular_quadrature.hpp"
 #include "core/output_interface.hpp"
 #include "sn/sn_sweeper_variant.hpp"
@@ -131,6 +132,11 @@ public:
     {
         std::cout << "creating 2d3d source" << std::endl;
 
+        std::string scattering = input.attribute("scattering").value();
+        if (sanitize(scattering) != "p0") {
+            throw EXCEPT("Only P0 scattering is supported by 2D3D.");
+        }
+
         auto source = UP_Source_t(new Source_2D3D(moc_sweeper_, *sn_sweeper_));
         return source;
     }
diff --git a/src/sweepers/mc/fission_bank.cpp b/src/sweepers/mc/fission_bank.cpp
index 28ab308..eb282c0 100644
--- a/src/sweepers/mc/fission_bank.cpp
+++ b/src/sweepers/mc/fission_bank.cpp
@@ -19,6 +19,7 @@
 #include <iostream>
 #include "pugixml.hpp"
 #include "util/error.hpp"
+#include "util/fp_utils.hpp"
 
 namespace mocc {
 namespace mc {
@@ -58,6 +59,18 @@ FissionBank::FissionBank(const pugi::xml_node &input, int n,
         throw EXCEPT("Invalid fission_box bounds specified.");
     }
 
+    real_t z_core = mesh.z_divisions().back();
+    if ((x_min < 0.0) || (y_min < 0.0) || (z_min < 0.0) ||
+        (x_max > mesh.hx_core() && !fp_equiv_rel(x_max, mesh.hx_core())) ||
+        (y_max > mesh.hy_core() && !fp_equiv_rel(y_max, mesh.hy_core())) ||
+        (z_max > z_core && !fp_equiv_rel(z_max, z_core))) {
+        throw EXCEPT("The fission_box extends beyond the core.");
+    }
+
+    if (n < 0) {
+        throw EXCEPT("Invalid number of particles specified");
+    }
+
     // See if we want to do a fissile region rejection (only accept fission
     // sites in fissile regions).
     bool fissile_rejection = input.attribute("fissile_rejection").as_bool(true);
@@ -114,7 +127,9 @@ real_t FissionBank::shannon_entropy() const
 
 void FissionBank::resize(unsigned int n, RNG_LCG &rng)
 {
-    assert(sites_.size() > 0);
+    if (sites_.empty()) {
+        throw EXCEPT("There are no fission sites left to sample from.");
+    }
 
     if (n > sites_.size()) {
         // Fission bank is too small. Randomly sample fission sites to
-- 
2.43.0


From 9e3bfe5a3dc52cb9ea54ffb9d34f220926296cc2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 04:59:07 +0000
Subject: [PATCH 31/34] fix: CMFD does not hand back axial currents of the top
 surface with macroplanes

---
 src/core/cmfd.cpp | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/src/core/cmfd.cpp b/src/core/cmfd.cpp
index ab2c243..0ddae98 100644
--- a/src/core/cmfd.cpp
+++ b/src/core/cmfd.cpp
@@ -626,9 +626,17 @@ void CMFD::store_currents()
                     int stp_coarse = mesh_.plane_surf_xy_begin(mplane) - 1;
                     coarse_data_.current(blitz::Range(stt_fine, stp_fine), ig) =
                         current_1g_(blitz::Range(stt_coarse, stp_coarse));
+                    current_mplane = mplane;
                 }
             }
-
+            // Lastly, store the top surface currents
+            int n_mplanes  = fine_mesh_->n_macroplanes();
+            int stt_fine   = fine_mesh_->plane_surf_begin(nz);
+            int stp_fine   = fine_mesh_->plane_surf_xy_begin(nz) - 1;
+            int stt_coarse = mesh_.plane_surf_begin(n_mplanes);
+            int stp_coarse = mesh_.plane_surf_xy_begin(n_mplanes) - 1;
+            coarse_data_.current(blitz::Range(stt_fine, stp_fine), ig) =
+                current_1g_(blitz::Range(stt_coarse, stp_coarse));
         } else {
             coarse_data_.current(blitz::Range::all(), ig) = current_1g_;
         }
-- 
2.43.0


From 93c7c961651244f93a5e740eb7c602c101cf401e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 07:28:48 +0000
Subject: [PATCH 32/34] fix: CMFD does not ask its linear solvers for more
 accuracy than the arithmetic has

---
 src/core/cmfd.cpp | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/src/core/cmfd.cpp b/src/core/cmfd.cpp
index 0ddae98..49a04f9 100644
--- a/src/core/cmfd.cpp
+++ b/src/core/cmfd.cpp
@@ -16,8 +16,10 @@
 
 #include "cmfd.hpp"
 
+#include <algorithm>
 #include <cmath>
 #include <iomanip>
+#include <limits>
 #include <string>
 #include <vector>
 #include "pugixml.hpp"
@@ -198,9 +200,13 @@ void CMFD::solve(real_t &k)
     // Calculate initial residual
     real_t r0 = this->residual();
 
-    // Use the residual to set tolerance on the BiCGSTAB solvers
+    // Use the residual to set tolerance on the BiCGSTAB solvers. Never ask for
+    // more than can be had in finite precision; the solvers break down (NaN)
+    // when they keep iterating on a residual that is all round-off.
     for (auto &solver : solvers_) {
-        solver.setTolerance(resid_reduction_ * r0);
+        solver.setTolerance(
+            std::max(resid_reduction_ * r0,
+                     1000.0 * std::numeric_limits<real_t>::epsilon()));
     }
 
     auto flags = LogScreen.flags();
-- 
2.43.0


From 78192036c87bba5979dac5528f5611e282ae334c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 11:08:21 +0000
Subject: [PATCH 33/34] fix: do not drop requested iteration dumps after a
 repeated one

---
 src/solvers/eigen_solver.cpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/solvers/eigen_solver.cpp b/src/solvers/eigen_solver.cpp
index 89e9f1c..4e8bee2 100644
--- a/src/solvers/eigen_solver.cpp
+++ b/src/solvers/eigen_solver.cpp
@@ -86,6 +86,10 @@ EigenSolver::EigenSolver(const pugi::xml_node &input, const CoreMesh &mesh)
         dump_iterations_ =
             explode_string<int>(input.child("dump_iterations").child_value());
         std::sort(dump_iterations_.begin(), dump_iterations_.end());
+        // A repeated entry would hold up the ones after it
+        dump_iterations_.erase(
+            std::unique(dump_iterations_.begin(), dump_iterations_.end()),
+            dump_iterations_.end());
         LogFile << "Dumping data for eigenvalue iterations:" << std::endl;
         for (const auto i : dump_iterations_) {
             LogFile << i << " ";
-- 
2.43.0


From aeb6c1ed349f7e59a161914223e81cd7d3c607b1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 11:19:59 +0000
Subject: [PATCH 34/34] fix: write dumped currents on the mesh they are stored
 on

With planes grouped into macroplanes, the surfaces of the coarser CMFD
mesh were used to index currents stored for the surfaces of the fine mesh.
---
 src/core/cmfd.cpp | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/src/core/cmfd.cpp b/src/core/cmfd.cpp
index 49a04f9..41205d9 100644
--- a/src/core/cmfd.cpp
+++ b/src/core/cmfd.cpp
@@ -685,10 +685,11 @@ void CMFD::output(H5Node &node) const
         return;
     }
 
-    auto dims = mesh_.dimensions();
+    // Currents live on the fine mesh, whose planes may be grouped for CMFD
+    auto dims = fine_mesh_->dimensions();
     std::reverse(dims.begin(), dims.end());
 
-    ArrayB1 surf_current(mesh_.n_pin());
+    ArrayB1 surf_current(fine_mesh_->n_pin());
 
     auto current_g = node.create_group("current");
     current_g.write("source", coarse_data_.source());
@@ -700,9 +701,9 @@ void CMFD::output(H5Node &node) const
             std::stringstream s_str;
             s_str << surf;
 
-            for (int i = 0; i < mesh_.n_pin(); ++i) {
+            for (int i = 0; i < fine_mesh_->n_pin(); ++i) {
                 surf_current(i) =
-                    coarse_data_.current(mesh_.coarse_surf(i, surf), ig);
+                    coarse_data_.current(fine_mesh_->coarse_surf(i, surf), ig);
             }
             group_g.write(s_str.str(), surf_current, dims);
         }
-- 
2.43.0

