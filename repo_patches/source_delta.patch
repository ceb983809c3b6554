From 9bbdcda129c941c126cd8dddb0caf59641f71928 Mon Sep 17 00:00:00 2001
From: verif <v@x>
Date: Thu, 19 Nov 2026 16:38:42 +0000
Subject: [PATCH 01/40] fix: MultiGeometryEntitySet::addEntity did not compile
 when opening a new entity set

---
 frackit/entitynetwork/multigeometryentityset.hh | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/frackit/entitynetwork/multigeometryentityset.hh b/frackit/entitynetwork/multigeometryentityset.hh
index 8c03ed7..452d15a 100644
--- a/frackit/entitynetwork/multigeometryentityset.hh
+++ b/frackit/entitynetwork/multigeometryentityset.hh
@@ -96,7 +96,7 @@ public:
         }
 
         // define a new entity set
-        entityIdVectors.push_back( GeometryVectorIdPair<Entity>({}, id.get()) );
+        entityIdVectors.push_back( GeometryVectorIdPair<Entity>({}, id) );
         entityIdVectors.back().first.push_back(entity);
         entitySetGeometries_[id.get()] = geometryName(entity);
     }
-- 
2.43.0


From 0137188ada747271b7bff1780680a0de9d1be9ae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:59:27 +0000
Subject: [PATCH 02/40] fix: Vector::isParallel did not detect antiparallel
 vectors (and accepted all for eps > pi/2)

---
 frackit/geometry/vector.hh | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/frackit/geometry/vector.hh b/frackit/geometry/vector.hh
index cbecf47..be62da3 100644
--- a/frackit/geometry/vector.hh
+++ b/frackit/geometry/vector.hh
@@ -131,7 +131,7 @@ public:
 
         using std::acos; using std::abs;
         const auto angle = abs(acos( (*this)*other/thisNorm/otherNorm ));
-        return angle < angularEps || abs(angularEps - M_PI) < angularEps;
+        return angle < angularEps || abs(angle - M_PI) < angularEps;
     }
 
     //! Scalar product with another vector
-- 
2.43.0


From 0751095e045cf52c9c1637d4f5f135163dd59751 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:59:27 +0000
Subject: [PATCH 03/40] fix: Polygon convexity check skipped the corner between
 the first two edges

---
 frackit/geometry/polygon.hh | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/frackit/geometry/polygon.hh b/frackit/geometry/polygon.hh
index ea9855e..f9ef811 100644
--- a/frackit/geometry/polygon.hh
+++ b/frackit/geometry/polygon.hh
@@ -232,7 +232,7 @@ private:
                                              Vector(edge(0).direction()));
 
         // check if normals around the other edges point in the same direction
-        for (std::size_t i = 1; i < numEdges()-1; ++i)
+        for (std::size_t i = 0; i < numEdges()-1; ++i)
         {
             const auto n = crossProduct(Vector(edge(i).direction()),
                                         Vector(edge(i+1).direction()));
-- 
2.43.0


From 08ce7a5dde8767ab1bbd074a8992209e9830e765 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:59:27 +0000
Subject: [PATCH 04/40] fix: EllipseArc::contains rejected points on an arc
 that describes a full ellipse

---
 frackit/geometry/ellipsearc.hh | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/frackit/geometry/ellipsearc.hh b/frackit/geometry/ellipsearc.hh
index 5cada80..a4657a6 100644
--- a/frackit/geometry/ellipsearc.hh
+++ b/frackit/geometry/ellipsearc.hh
@@ -133,6 +133,9 @@ public:
             if (!ParentType::contains(p, eps))
                 return false;
 
+        if (isFullEllipse())
+            return true;
+
         const auto angle = this->getAngle(p, checkIfOnEllipse);
         if (sourceAngle_ > targetAngle_)
             return angle >= sourceAngle_ - eps || angle <= targetAngle_ + eps;
-- 
2.43.0


From 16fd761d5f8fb4f6f265cfeb8f153bc949054052 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:59:27 +0000
Subject: [PATCH 05/40] fix: Triangle::contains with default tolerance read a
 nonexistent corner and ignored checkIfOnPlane

---
 frackit/geometry/triangle.hh | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/frackit/geometry/triangle.hh b/frackit/geometry/triangle.hh
index 60684d1..bbe6b9c 100644
--- a/frackit/geometry/triangle.hh
+++ b/frackit/geometry/triangle.hh
@@ -169,8 +169,8 @@ public:
     bool contains(const Point& p,  bool checkIfOnPlane = true) const
     {
         auto eps = Precision<ctype>::confusion();
-        eps *= Vector(corner(0), corner(3)).length();
-        return contains(p, eps);
+        eps *= Vector(corner(0), corner(1)).length();
+        return contains(p, eps, checkIfOnPlane);
     }
 
 private:
-- 
2.43.0


From e87ecc6f43227684f1bbf5b1bce3e077bda2a162 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:10:16 +0000
Subject: [PATCH 06/40] fix: length of ellipses and full elliptical arcs was a
 coarse approximation

---
 frackit/magnitude/length.hh | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/frackit/magnitude/length.hh b/frackit/magnitude/length.hh
index ea25240..7523c0c 100644
--- a/frackit/magnitude/length.hh
+++ b/frackit/magnitude/length.hh
@@ -39,6 +39,7 @@
 #include <frackit/occ/geomutilities.hh>
 #include <frackit/occ/breputilities.hh>
 
+#include <frackit/precision/precision.hh>
 #include <frackit/geometry/circle.hh>
 #include <frackit/geometry/ellipse.hh>
 #include <frackit/geometry/ellipsearc.hh>
@@ -65,7 +66,7 @@ ctype computeLength(const Handle(Geom_Curve)& curve)
     const auto uMin = curve->FirstParameter();
     const auto uMax = curve->LastParameter();
     GeomAdaptor_Curve adaptorCurve(curve, uMin, uMax);
-    return GCPnts_AbscissaPoint::Length(adaptorCurve, uMin, uMax);
+    return GCPnts_AbscissaPoint::Length(adaptorCurve, uMin, uMax, Precision<ctype>::confusion());
 }
 
 /*!
@@ -103,7 +104,7 @@ ctype computeLength(const Circle<ctype, worldDim>& circle)
  */
 template<class ctype, int worldDim>
 ctype computeLength(const Ellipse<ctype, worldDim>& ellipse)
-{ return M_PI*(ellipse.majorAxisLength() + ellipse.minorAxisLength()); }
+{ return computeLength(OCCUtilities::getGeomHandle(ellipse)); }
 
 /*!
  * \ingroup Magnitude
@@ -113,7 +114,7 @@ template<class ctype>
 ctype computeLength(const EllipseArc<ctype, 3>& arc)
 {
     if (arc.isFullEllipse())
-         return M_PI*(arc.majorAxisLength() + arc.minorAxisLength());
+         return computeLength(arc.supportingEllipse());
     return computeLength(OCCUtilities::getGeomHandle(arc));
 }
 
-- 
2.43.0


From 96fd36f49fb07bc9b700b2ab49c7d3255c68b30b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:12:18 +0000
Subject: [PATCH 07/40] fix: Disk::getPoint scaled the radius vector but added
 it to the boundary point

---
 frackit/geometry/disk.hh | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/frackit/geometry/disk.hh b/frackit/geometry/disk.hh
index 122a008..4eaaaf6 100644
--- a/frackit/geometry/disk.hh
+++ b/frackit/geometry/disk.hh
@@ -134,7 +134,7 @@ public:
         const auto p = boundingEllipse().getPoint(param1);
         Vector d(this->center(), p);
         d *= param2;
-        return p + d;
+        return this->center() + d;
     }
 
     //! Returns the ellipse describing the disk's boundary
-- 
2.43.0


From a857de5c5b7e3143f5dc0fbe79ff0a828122fe9a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:12:18 +0000
Subject: [PATCH 08/40] fix: tangent plane of a face was evaluated at the
 projection distance instead of its u-parameter

---
 frackit/intersection/intersectionangle.hh | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/frackit/intersection/intersectionangle.hh b/frackit/intersection/intersectionangle.hh
index 050791f..dbdd062 100644
--- a/frackit/intersection/intersectionangle.hh
+++ b/frackit/intersection/intersectionangle.hh
@@ -380,7 +380,7 @@ public:
         // construct the tangent plane of the face in the point
         gp_Pnt p;
         gp_Vec baseVec1, baseVec2;
-        geomSurface->D1(projection, paramV, p, baseVec1, baseVec2);
+        geomSurface->D1(paramU, paramV, p, baseVec1, baseVec2);
 
         const auto base1 = OCCUtilities::vector(baseVec1);
         const auto base2 = OCCUtilities::vector(baseVec2);
-- 
2.43.0


From b8b6f16f92b584e5c3905d7244d61cdc9d09de48 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:12:18 +0000
Subject: [PATCH 09/40] fix: pointOnGeometryBoundary for faces ignored the
 given tolerance

---
 frackit/distance/pointonboundary.hh | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/frackit/distance/pointonboundary.hh b/frackit/distance/pointonboundary.hh
index cc8a94b..129d65a 100644
--- a/frackit/distance/pointonboundary.hh
+++ b/frackit/distance/pointonboundary.hh
@@ -143,7 +143,7 @@ template<class ctype1, class ctype2>
 bool pointOnGeometryBoundary(const Point<ctype1, 3>& p,
                              const TopoDS_Face& face,
                              ctype2 eps)
-{ return pointOnGeometry(p, BRepTools::OuterWire(face)); }
+{ return pointOnGeometry(p, BRepTools::OuterWire(face), eps); }
 
 /*!
  * \ingroup Distance
-- 
2.43.0


From 81cb8293ac8a8a71c48d50f10c7be902c0db4b5c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:12:18 +0000
Subject: [PATCH 10/40] fix: polygon-disk intersection missed polygons away
 from the center of large disks

---
 frackit/intersection/algorithms/algo_polygon_disk.hh | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/frackit/intersection/algorithms/algo_polygon_disk.hh b/frackit/intersection/algorithms/algo_polygon_disk.hh
index 450e39d..25a3174 100644
--- a/frackit/intersection/algorithms/algo_polygon_disk.hh
+++ b/frackit/intersection/algorithms/algo_polygon_disk.hh
@@ -50,7 +50,7 @@ intersect_polygon_disk(const Polygon<ctype, 3>& polygon,
                              ctype eps)
 {
     using Segment = Segment<ctype, 3>;
-    ctype charLength = 0.0;
+    ctype charLength = disk.majorAxisLength()*disk.majorAxisLength();
 
     using std::max;
     for (unsigned int i = 0; i < polygon.numCorners(); ++i)
-- 
2.43.0


From aa2f63e9d45ae13f58c465bf3cf763d6bd559ee5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:12:47 +0000
Subject: [PATCH 11/40] fix: disk and line intersections accepted concave
 quadrilaterals and polygons and returned wrong results

---
 frackit/intersection/algorithms/algo_polygon_disk.hh       | 4 ++++
 frackit/intersection/algorithms/algo_quadrilateral_disk.hh | 4 ++++
 frackit/intersection/algorithms/algo_quadrilateral_line.hh | 4 ++++
 3 files changed, 12 insertions(+)

diff --git a/frackit/intersection/algorithms/algo_polygon_disk.hh b/frackit/intersection/algorithms/algo_polygon_disk.hh
index 25a3174..2fda1f2 100644
--- a/frackit/intersection/algorithms/algo_polygon_disk.hh
+++ b/frackit/intersection/algorithms/algo_polygon_disk.hh
@@ -25,6 +25,7 @@
 #define FRACKIT_POLYGON_DISK_INTERSECTION_HH
 
 #include <cmath>
+#include <stdexcept>
 
 #include <frackit/precision/precision.hh>
 #include <frackit/geometry/polygon.hh>
@@ -49,6 +50,9 @@ intersect_polygon_disk(const Polygon<ctype, 3>& polygon,
                              const Disk<ctype>& disk,
                              ctype eps)
 {
+    if (!polygon.isConvex())
+        throw std::runtime_error("Polygon-Disk algorithm only works for convex polygons");
+
     using Segment = Segment<ctype, 3>;
     ctype charLength = disk.majorAxisLength()*disk.majorAxisLength();
 
diff --git a/frackit/intersection/algorithms/algo_quadrilateral_disk.hh b/frackit/intersection/algorithms/algo_quadrilateral_disk.hh
index 148d30f..854fa7d 100644
--- a/frackit/intersection/algorithms/algo_quadrilateral_disk.hh
+++ b/frackit/intersection/algorithms/algo_quadrilateral_disk.hh
@@ -25,6 +25,7 @@
 #define FRACKIT_QUADRILATERAL_DISK_INTERSECTION_HH
 
 #include <cmath>
+#include <stdexcept>
 
 #include <frackit/precision/precision.hh>
 #include <frackit/geometry/quadrilateral.hh>
@@ -48,6 +49,9 @@ intersect_quadrilateral_disk(const Quadrilateral<ctype, 3>& quad,
                              const Disk<ctype>& disk,
                              ctype eps)
 {
+    if (!quad.isConvex())
+        throw std::runtime_error("Quad-Disk intersection algorithm not robust for concave quads");
+
     using std::max;
     ctype charLength = disk.majorAxisLength()*disk.majorAxisLength();
     for (unsigned int edgeIdx = 0; edgeIdx < quad.numEdges(); ++edgeIdx)
diff --git a/frackit/intersection/algorithms/algo_quadrilateral_line.hh b/frackit/intersection/algorithms/algo_quadrilateral_line.hh
index 9832a5a..b0d372b 100644
--- a/frackit/intersection/algorithms/algo_quadrilateral_line.hh
+++ b/frackit/intersection/algorithms/algo_quadrilateral_line.hh
@@ -25,6 +25,7 @@
 #define FRACKIT_QUADRILATERAL_LINE_INTERSECTION_HH
 
 #include <cmath>
+#include <stdexcept>
 
 #include <frackit/geometry/quadrilateral.hh>
 #include <frackit/geometry/line.hh>
@@ -46,6 +47,9 @@ intersect_quadrilateral_line(const Quadrilateral<ctype, 3>& quad,
                              const Line<ctype, 3>& line,
                              ctype eps)
 {
+    if (!quad.isConvex())
+        throw std::runtime_error("Quad-Line intersection algorithm not robust for concave quads");
+
     // characteristic length
     using std::max;
     ctype charLength = 0.0;
-- 
2.43.0


From f24cdf766fbe0370af74e3c25d3da0a85c0a3d11 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:12:47 +0000
Subject: [PATCH 12/40] fix: fragments of different primary entities could get
 the same index in networks without sub-domain relation

---
 frackit/entitynetwork/networkbuilder.hh | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/frackit/entitynetwork/networkbuilder.hh b/frackit/entitynetwork/networkbuilder.hh
index 601c8d8..88ff7c0 100644
--- a/frackit/entitynetwork/networkbuilder.hh
+++ b/frackit/entitynetwork/networkbuilder.hh
@@ -589,7 +589,11 @@ public:
             const auto& indexMap = dataPair.second;
             for (TopTools_DataMapIteratorOfDataMapOfShapeInteger it(indexMap); it.More(); it.Next())
                 fragmentIndexMap.Bind(it.Key(), it.Value() + entityIndexOffset);
-            entityIndexOffset += indexMap.Extent();
+
+            // increment by the number of primary entities (not fragments) of this network
+            const auto netIt = this->networks_.find(dataPair.first);
+            if (netIt != this->networks_.end())
+                entityIndexOffset += netIt->second.Extent();
         }
 
         // create the network
-- 
2.43.0


From 5d34eb83b00bb6620ed9f1883139c6c214931e74 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:13:01 +0000
Subject: [PATCH 13/40] fix: BRep/Gmsh output assigned fragments of different
 sub-domain entities the same physical index

---
 frackit/io/brepwriter.hh | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/frackit/io/brepwriter.hh b/frackit/io/brepwriter.hh
index 8d097c2..43010dd 100644
--- a/frackit/io/brepwriter.hh
+++ b/frackit/io/brepwriter.hh
@@ -24,6 +24,7 @@
 #ifndef FRACKIT_BREP_WRITER_HH
 #define FRACKIT_BREP_WRITER_HH
 
+#include <algorithm>
 #include <string>
 #include <stdexcept>
 #include <unordered_map>
@@ -136,14 +137,16 @@ private:
             // Therefore, we add the offset in order to ensure that we don't add
             // entities from another network to the same primary entity index
             const auto& map = network.subDomainEntityFragmentsIndexMap(id);
+            std::size_t maxIndex = 0;
             for (TopTools_DataMapIteratorOfDataMapOfShapeInteger it(map); it.More(); it.Next())
             {
                 allEntities_.Append(it.Key());
                 allEntitiesIndexMap_.Bind(it.Key(), it.Value() + subNetworkOffset);
+                maxIndex = std::max(maxIndex, static_cast<std::size_t>(it.Value()));
             }
 
             // the next sub-domain
-            subNetworkOffset += map.Extent();
+            subNetworkOffset += maxIndex;
         }
     }
 
-- 
2.43.0


From d3db1ab907e11d46d0815070c9897405c8bd928e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:13:29 +0000
Subject: [PATCH 14/40] fix: network builders kept the default tolerance of the
 first build after the data had changed

---
 frackit/entitynetwork/networkbuilder.hh | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/frackit/entitynetwork/networkbuilder.hh b/frackit/entitynetwork/networkbuilder.hh
index 88ff7c0..99215e8 100644
--- a/frackit/entitynetwork/networkbuilder.hh
+++ b/frackit/entitynetwork/networkbuilder.hh
@@ -405,8 +405,12 @@ protected:
      */
     ctype getEpsilon_()
     {
+        // do not store the default, it changes with the data inserted
         if (!epsilonIsSet_)
+        {
             setDefaultEpsilon();
+            epsilonIsSet_ = false;
+        }
         return eps_;
     }
 
-- 
2.43.0


From 5709efa70dd668f73a72190fff0c3c16d76ab8e3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:13:29 +0000
Subject: [PATCH 15/40] fix: polygon sampler returned polygons with
 non-positive dip length

---
 frackit/sampling/polygonsampler.hh | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/frackit/sampling/polygonsampler.hh b/frackit/sampling/polygonsampler.hh
index c726dc5..309a623 100644
--- a/frackit/sampling/polygonsampler.hh
+++ b/frackit/sampling/polygonsampler.hh
@@ -166,7 +166,7 @@ public:
         while (numCorners < 3 && count < 100)
         { numCorners = p_num_corners_(generator_); count++; };
 
-        if (count == 100)
+        if (numCorners < 3)
         {
             std::string msg = "Did not obtain a value >= 3 for the number of corners after 100 tries. ";
             msg += "Please revisit your choice of distribution for that parameter.";
@@ -249,15 +249,15 @@ public:
         auto dipLength = p_dip_length_(generator_);
 
         int countStrike = 0;
-        while (strikeLength < 0.0 && countStrike < 100)
+        while (strikeLength <= 0.0 && countStrike < 100)
         { strikeLength = p_strike_length_(generator_); countStrike++; }
-        if (countStrike == 100)
+        if (strikeLength <= 0.0)
             throw std::runtime_error("Could not sample positive strike length in 100 tries");
 
         int countDip = 0;
-        while (dipLength < 0.0 && countDip < 100)
+        while (dipLength <= 0.0 && countDip < 100)
         { dipLength = p_dip_length_(generator_); countDip++; }
-        if (countStrike == 100)
+        if (dipLength <= 0.0)
             throw std::runtime_error("Could not sample positive dip length in 100 tries");
 
         std::vector<Vector> edgeVectors;
-- 
2.43.0


From 76ce200a4cba63950893662a7e1d12f9d601ed95 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:13:29 +0000
Subject: [PATCH 16/40] fix: deprecated quadrilateral sampler never left the
 loop after drawing a too small edge length

---
 frackit/sampling/quadrilateralsampler.hh | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/frackit/sampling/quadrilateralsampler.hh b/frackit/sampling/quadrilateralsampler.hh
index 008a6c0..026adbb 100644
--- a/frackit/sampling/quadrilateralsampler.hh
+++ b/frackit/sampling/quadrilateralsampler.hh
@@ -252,10 +252,10 @@ public:
         rotate(axes[0], Direction(axes[1]), dip);
 
         // sample edge lengths until all are admissible
-        auto dx1 = p_edge_(generator_); while (dx1 < minEdgeLength_) p_edge_(generator_);
-        auto dx2 = p_edge_(generator_); while (dx2 < minEdgeLength_) p_edge_(generator_);
-        auto dy1 = p_edge_(generator_); while (dy1 < minEdgeLength_) p_edge_(generator_);
-        auto dy2 = p_edge_(generator_); while (dy2 < minEdgeLength_) p_edge_(generator_);
+        auto dx1 = p_edge_(generator_); while (dx1 < minEdgeLength_) dx1 = p_edge_(generator_);
+        auto dx2 = p_edge_(generator_); while (dx2 < minEdgeLength_) dx2 = p_edge_(generator_);
+        auto dy1 = p_edge_(generator_); while (dy1 < minEdgeLength_) dy1 = p_edge_(generator_);
+        auto dy2 = p_edge_(generator_); while (dy2 < minEdgeLength_) dy2 = p_edge_(generator_);
 
         auto dxVec1 = axes[0]; dxVec1 *= dx1/2.0;
         auto dxVec2 = axes[0]; dxVec2 *= dx2/2.0;
-- 
2.43.0


From ad676913c7b1a4bef68a113e06db13aa65a1a1f9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:13:29 +0000
Subject: [PATCH 17/40] fix: querying or resetting the counter of an unknown id
 broke SamplingStatus::finished()

---
 frackit/sampling/status.hh | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/frackit/sampling/status.hh b/frackit/sampling/status.hh
index f96e3f9..72c30c7 100644
--- a/frackit/sampling/status.hh
+++ b/frackit/sampling/status.hh
@@ -85,7 +85,9 @@ public:
      */
     void resetCounter(const Id& id)
     {
-        count_[id.get()] = 0;
+        auto it = count_.find(id.get());
+        if (it != count_.end())
+            it->second = 0;
     }
 
     /*!
@@ -134,7 +136,10 @@ public:
      * \brief Returns the entity count for the given id.
      */
     std::size_t getCount(const Id& id)
-    { return count_[id.get()]; }
+    {
+        const auto it = count_.find(id.get());
+        return it == count_.end() ? 0 : it->second;
+    }
 
     /*!
      * \brief Returns the overall entity count.
-- 
2.43.0


From f3613c59e28e103abfaf5af3d4dba4d0904c5f23 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:13:29 +0000
Subject: [PATCH 18/40] fix: SamplingStatus::resetCounters() did not reset the
 counter of rejected samples

---
 frackit/sampling/status.hh | 1 +
 1 file changed, 1 insertion(+)

diff --git a/frackit/sampling/status.hh b/frackit/sampling/status.hh
index 72c30c7..bebf467 100644
--- a/frackit/sampling/status.hh
+++ b/frackit/sampling/status.hh
@@ -77,6 +77,7 @@ public:
      */
     void resetCounters()
     {
+        rejectedCount_ = 0;
         for (auto& count : count_) count.second = 0;
     }
 
-- 
2.43.0


From ca31c36557b6a96139c515e7c3e95f7e0cea9c3f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:13:29 +0000
Subject: [PATCH 19/40] fix: SamplingStatus::print() threw std::length_error if
 no target counts were set

---
 frackit/sampling/status.hh | 13 +++++++------
 1 file changed, 7 insertions(+), 6 deletions(-)

diff --git a/frackit/sampling/status.hh b/frackit/sampling/status.hh
index bebf467..690e0ee 100644
--- a/frackit/sampling/status.hh
+++ b/frackit/sampling/status.hh
@@ -182,12 +182,13 @@ public:
         const auto countString = std::to_string(curCount);
         const auto rejectedCountString = std::to_string(rejectedCount_);
 
-        using std::max;
-        const std::size_t zero = 0;
-        const std::size_t paddingCount    = max(zero, 13 - countString.size());
-        const std::size_t paddingRejected = max(zero, 13 - rejectedCountString.size());
-        const std::size_t paddingRatio    = max(zero, 16 - ratioNumChars);
-        const std::size_t paddingProgess  = max(zero, 8  - progressNumChars);
+        // (avoid underflow of the unsigned types for long strings)
+        auto padding = [] (std::size_t width, std::size_t numChars) -> std::size_t
+        { return numChars < width ? width - numChars : 0; };
+        const std::size_t paddingCount    = padding(13, countString.size());
+        const std::size_t paddingRejected = padding(13, rejectedCountString.size());
+        const std::size_t paddingRatio    = padding(16, ratioNumChars);
+        const std::size_t paddingProgess  = padding(8,  progressNumChars);
 
         std::cout << "  "      << std::string( paddingCount, ' ')    << countString + ' '
                   << "   |   " << std::string( paddingRejected, ' ') << rejectedCountString + ' '
-- 
2.43.0


From c0a798a48583f115c5828a52e193e41aca38cfea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:14:28 +0000
Subject: [PATCH 20/40] fix: non-template functions in headers were not inline
 (multiple definitions when included in two translation units)

---
 frackit/geometryutilities/name.hh             | 14 ++++++------
 .../algorithms/algo_face_face_3d.hh           |  2 +-
 frackit/occ/breputilities.hh                  | 22 +++++++++----------
 frackit/occ/geomutilities.hh                  |  4 ++--
 frackit/occ/gputilities.hh                    |  2 +-
 5 files changed, 22 insertions(+), 22 deletions(-)

diff --git a/frackit/geometryutilities/name.hh b/frackit/geometryutilities/name.hh
index a9fb4ed..e31bf66 100644
--- a/frackit/geometryutilities/name.hh
+++ b/frackit/geometryutilities/name.hh
@@ -52,49 +52,49 @@ std::string geometryName(const Geo& geo)
  * \ingroup GeometryUtilities
  * \brief Return the name for a TopoDS_Solid.
  */
-std::string geometryName(const TopoDS_Solid& s)
+inline std::string geometryName(const TopoDS_Solid& s)
 { return "TopoDS_Solid"; }
 
 /*!
  * \ingroup GeometryUtilities
  * \brief Return the name for a TopoDS_Shell.
  */
-std::string geometryName(const TopoDS_Shell& s)
+inline std::string geometryName(const TopoDS_Shell& s)
 { return "TopoDS_Shell"; }
 
 /*!
  * \ingroup GeometryUtilities
  * \brief Return the name for a TopoDS_Face.
  */
-std::string geometryName(const TopoDS_Face& f)
+inline std::string geometryName(const TopoDS_Face& f)
 { return "TopoDS_Face"; }
 
 /*!
  * \ingroup GeometryUtilities
  * \brief Return the name for a TopoDS_Wire.
  */
-std::string geometryName(const TopoDS_Wire& w)
+inline std::string geometryName(const TopoDS_Wire& w)
 { return "TopoDS_Wire"; }
 
 /*!
  * \ingroup GeometryUtilities
  * \brief Return the name for a TopoDS_Edge.
  */
-std::string geometryName(const TopoDS_Edge& e)
+inline std::string geometryName(const TopoDS_Edge& e)
 { return "TopoDS_Edge"; }
 
 /*!
  * \ingroup GeometryUtilities
  * \brief Return the name for a TopoDS_Vertex.
  */
-std::string geometryName(const TopoDS_Vertex& v)
+inline std::string geometryName(const TopoDS_Vertex& v)
 { return "TopoDS_Vertex"; }
 
 /*!
  * \ingroup GeometryUtilities
  * \brief Return the name for a TopoDS_Shape.
  */
-std::string geometryName(const TopoDS_Shape& v)
+inline std::string geometryName(const TopoDS_Shape& v)
 { return "TopoDS_Shape"; }
 
 } // end namespace Frackit
diff --git a/frackit/intersection/algorithms/algo_face_face_3d.hh b/frackit/intersection/algorithms/algo_face_face_3d.hh
index 0dda6db..388eeb9 100644
--- a/frackit/intersection/algorithms/algo_face_face_3d.hh
+++ b/frackit/intersection/algorithms/algo_face_face_3d.hh
@@ -51,7 +51,7 @@ namespace IntersectionAlgorithms {
  * \param face2 The seond face shape
  * \param eps Tolerance to be used for boolean operations
  */
-Intersection< TopoDS_Face, TopoDS_Face >
+inline Intersection< TopoDS_Face, TopoDS_Face >
 intersect_face_face_3d(const TopoDS_Face& face1,
                        const TopoDS_Face& face2,
                        typename CoordinateTypeTraits<TopoDS_Face>::type eps)
diff --git a/frackit/occ/breputilities.hh b/frackit/occ/breputilities.hh
index d096cd7..a7e164f 100644
--- a/frackit/occ/breputilities.hh
+++ b/frackit/occ/breputilities.hh
@@ -106,7 +106,7 @@ namespace OCCUtilities {
      * \brief Return the shape read from a .brep file.
      * \param fileName The name of the .brep file
      */
-    TopoDS_Shape readShape(const std::string& fileName)
+    inline TopoDS_Shape readShape(const std::string& fileName)
     {
         TopoDS_Shape domainShape;
         std::ifstream file(fileName);
@@ -119,7 +119,7 @@ namespace OCCUtilities {
      * \brief Converts a vertex shape into a point.
      * \param v The vertex shape
      */
-    Point<double, 3> point(const TopoDS_Vertex& v)
+    inline Point<double, 3> point(const TopoDS_Vertex& v)
     { return point(BRep_Tool::Pnt(v)); }
 
     /*!
@@ -351,13 +351,13 @@ namespace OCCUtilities {
     }
 
     //! Get the BRep of shapes (for compatibilty reasons)
-    const TopoDS_Vertex& getShape(const TopoDS_Vertex& v) { return v; }
-    const TopoDS_Edge& getShape(const TopoDS_Edge& e) { return e; }
-    const TopoDS_Wire& getShape(const TopoDS_Wire& w) { return w; }
-    const TopoDS_Face& getShape(const TopoDS_Face& f) { return f; }
-    const TopoDS_Shell& getShape(const TopoDS_Shell& s) { return s; }
-    const TopoDS_Solid& getShape(const TopoDS_Solid& s) { return s; }
-    const TopoDS_Compound& getShape(const TopoDS_Compound& c) { return c; }
+    inline const TopoDS_Vertex& getShape(const TopoDS_Vertex& v) { return v; }
+    inline const TopoDS_Edge& getShape(const TopoDS_Edge& e) { return e; }
+    inline const TopoDS_Wire& getShape(const TopoDS_Wire& w) { return w; }
+    inline const TopoDS_Face& getShape(const TopoDS_Face& f) { return f; }
+    inline const TopoDS_Shell& getShape(const TopoDS_Shell& s) { return s; }
+    inline const TopoDS_Solid& getShape(const TopoDS_Solid& s) { return s; }
+    inline const TopoDS_Compound& getShape(const TopoDS_Compound& c) { return c; }
 
     /*!
      * \ingroup OpenCascade
@@ -565,7 +565,7 @@ namespace OCCUtilities {
      * \note This assumes that the sets of edges don't contain any duplicates!
      * \returns A vector with the edges on which the two faces coincide.
      */
-    std::vector<TopoDS_Edge> getOverlapEdges(const std::vector<TopoDS_Edge>& edges1,
+    inline std::vector<TopoDS_Edge> getOverlapEdges(const std::vector<TopoDS_Edge>& edges1,
                                              const std::vector<TopoDS_Edge>& edges2)
     {
         std::vector<TopoDS_Edge> overlapEdges;
@@ -584,7 +584,7 @@ namespace OCCUtilities {
      * \param face2 the shape of the second face
      * \returns A vector with the edges on which the two faces coincide.
      */
-    std::vector<TopoDS_Edge> getOverlapEdges(const TopoDS_Face& face1,
+    inline std::vector<TopoDS_Edge> getOverlapEdges(const TopoDS_Face& face1,
                                              const TopoDS_Face& face2)
     { return getOverlapEdges(getEdges(face1), getEdges(face2)); }
 
diff --git a/frackit/occ/geomutilities.hh b/frackit/occ/geomutilities.hh
index b7ed8a3..81b7b5b 100644
--- a/frackit/occ/geomutilities.hh
+++ b/frackit/occ/geomutilities.hh
@@ -92,7 +92,7 @@ namespace OCCUtilities {
      * \ingroup OpenCascade
      * \brief Get the Geom_Curve handle for an edge shape.
      */
-    Handle(Geom_Curve) getGeomHandle(const TopoDS_Edge& edge)
+    inline Handle(Geom_Curve) getGeomHandle(const TopoDS_Edge& edge)
     {
         // get unbounded curve and parameter bounds (umin, umax)
         Standard_Real uMin, uMax;
@@ -106,7 +106,7 @@ namespace OCCUtilities {
      * \ingroup OpenCascade
      * \brief Get the Geom_Surface handle for a face shape.
      */
-    Handle(Geom_Surface) getGeomHandle(const TopoDS_Face& face)
+    inline Handle(Geom_Surface) getGeomHandle(const TopoDS_Face& face)
     { return BRep_Tool::Surface(face); }
 
 } // end namespace OCCUtilities
diff --git a/frackit/occ/gputilities.hh b/frackit/occ/gputilities.hh
index 15e7f90..d8c6bac 100644
--- a/frackit/occ/gputilities.hh
+++ b/frackit/occ/gputilities.hh
@@ -58,7 +58,7 @@ namespace OCCUtilities {
      * \brief Casts a point from the geometric
      *        processors package.
      */
-    Point<double, 3> point(const gp_Pnt& p)
+    inline Point<double, 3> point(const gp_Pnt& p)
     { return {p.X(), p.Y(), p.Z()}; }
 
     /*!
-- 
2.43.0


From 12756cd8a9165b102cd5337905a81dbc19e9f524 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:14:49 +0000
Subject: [PATCH 21/40] fix: failures to read or write shape and mesh files
 went unnoticed

---
 frackit/io/brepwriter.hh                     | 3 ++-
 frackit/io/gmshwriter.hh                     | 4 ++++
 frackit/occ/breputilities.hh                 | 2 ++
 frackit/python/occutilities/breputilities.hh | 3 ++-
 4 files changed, 10 insertions(+), 2 deletions(-)

diff --git a/frackit/io/brepwriter.hh b/frackit/io/brepwriter.hh
index 43010dd..fd23699 100644
--- a/frackit/io/brepwriter.hh
+++ b/frackit/io/brepwriter.hh
@@ -94,7 +94,8 @@ public:
     void write(const std::string& fileName)
     {
         const std::string brepFile = fileName + ".brep";
-        BRepTools::Write(compound_, brepFile.c_str());
+        if (!BRepTools::Write(compound_, brepFile.c_str()))
+            throw std::runtime_error("Could not write file " + brepFile);
     }
 
 protected:
diff --git a/frackit/io/gmshwriter.hh b/frackit/io/gmshwriter.hh
index 52dcacb..cca2254 100644
--- a/frackit/io/gmshwriter.hh
+++ b/frackit/io/gmshwriter.hh
@@ -149,6 +149,10 @@ public:
                 geoFile << "};\n";
             }
         }
+
+        geoFile.close();
+        if (geoFile.fail())
+            throw std::runtime_error("Could not write file " + fileName + ".geo");
     }
 
     /*!
diff --git a/frackit/occ/breputilities.hh b/frackit/occ/breputilities.hh
index a7e164f..2d1c8ae 100644
--- a/frackit/occ/breputilities.hh
+++ b/frackit/occ/breputilities.hh
@@ -111,6 +111,8 @@ namespace OCCUtilities {
         TopoDS_Shape domainShape;
         std::ifstream file(fileName);
         BRepTools::Read(domainShape, file, BRep_Builder());
+        if (domainShape.IsNull())
+            throw std::runtime_error("Could not read shape from file " + fileName);
         return domainShape;
     }
 
diff --git a/frackit/python/occutilities/breputilities.hh b/frackit/python/occutilities/breputilities.hh
index 12c3f05..936cad5 100644
--- a/frackit/python/occutilities/breputilities.hh
+++ b/frackit/python/occutilities/breputilities.hh
@@ -241,7 +241,8 @@ namespace OCCUtilities {
     template<class WrappedShape>
     void write(const WrappedShape& wrappedShape, const std::string& fileName)
     {
-        BRepTools::Write(wrappedShape.get(), fileName.c_str());
+        if (!BRepTools::Write(wrappedShape.get(), fileName.c_str()))
+            throw std::runtime_error("Could not write file " + fileName);
     }
 
 } // end namespace OCCUtilities
-- 
2.43.0


From 00a6d1b27f34e762e61d6a56f1d93e1285ca2f5d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:14:49 +0000
Subject: [PATCH 22/40] fix: points and vectors from short initializer lists
 had uninitialised coordinates

---
 frackit/geometry/point.hh  | 1 +
 frackit/geometry/vector.hh | 1 +
 2 files changed, 2 insertions(+)

diff --git a/frackit/geometry/point.hh b/frackit/geometry/point.hh
index b44530d..4f1a66d 100644
--- a/frackit/geometry/point.hh
+++ b/frackit/geometry/point.hh
@@ -72,6 +72,7 @@ public:
      */
     PointBase(const std::initializer_list<CT>& l)
     {
+        std::fill(coordinates_.begin(), coordinates_.end(), 0.0);
         const auto minDim = std::min(static_cast<std::size_t>(wd), l.size());
         std::copy_n( l.begin(), minDim, coordinates_.begin());
     }
diff --git a/frackit/geometry/vector.hh b/frackit/geometry/vector.hh
index be62da3..fcf0319 100644
--- a/frackit/geometry/vector.hh
+++ b/frackit/geometry/vector.hh
@@ -96,6 +96,7 @@ public:
      */
     VectorBase(const std::initializer_list<ctype>& l)
     {
+        std::fill(coordinates_.begin(), coordinates_.end(), 0.0);
         const auto minSize = std::min(static_cast<std::size_t>(wd), l.size());
         std::copy_n( l.begin(), minSize, coordinates_.begin() );
     }
-- 
2.43.0


From 9c39cf677a57984aab2f95b1cb4d9873297feb0a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:23:33 +0000
Subject: [PATCH 23/40] fix: computeDistanceToBoundary in Python returned the
 distance to the geometry itself for shapes

---
 frackit/distance/distancetoboundary.hh        | 48 +++++++++++++++++++
 frackit/python/geometry/distancetoboundary.hh |  2 +-
 2 files changed, 49 insertions(+), 1 deletion(-)

diff --git a/frackit/distance/distancetoboundary.hh b/frackit/distance/distancetoboundary.hh
index 28e4d39..03e4c6e 100644
--- a/frackit/distance/distancetoboundary.hh
+++ b/frackit/distance/distancetoboundary.hh
@@ -199,6 +199,54 @@ computeDistanceToBoundary(const Geo& geo,
                                extAlgo));
 }
 
+/*!
+ * \ingroup Distance
+ * \brief Compute the distance of a shape
+ *        to the boundary of a cylinder surface.
+ * \param shape The shape
+ * \param cylSurface The cylinder surface
+ * \param deflection The epsilon used in the BrepExtrema command
+ * \param extFlag The flag passed to the BrepExtrema command (MIN/MAX/MINMAX)
+ * \param extAlgo The algorithm passed to the BrepExtrema command (TREE/GRAD)
+ */
+template<class ctype>
+ctype computeDistanceToBoundary(const TopoDS_Shape& shape,
+                                const CylinderSurface<ctype>& cylSurface,
+                                ctype deflection = Precision<ctype>::confusion(),
+                                Extrema_ExtFlag extFlag = Extrema_ExtFlag_MINMAX,
+                                Extrema_ExtAlgo extAlgo = Extrema_ExtAlgo_Grad)
+{
+    using std::min;
+    return min(computeDistance(shape,
+                               OCCUtilities::getShape(cylSurface.lowerBoundingCircle()),
+                               deflection, extFlag, extAlgo),
+               computeDistance(shape,
+                               OCCUtilities::getShape(cylSurface.upperBoundingCircle()),
+                               deflection, extFlag, extAlgo));
+}
+
+/*!
+ * \ingroup Distance
+ * \brief Compute the distance of a shape
+ *        to the boundary of a solid.
+ * \param shape The shape
+ * \param solid The solid shape
+ * \param deflection The epsilon used in the BrepExtrema command
+ * \param extFlag The flag passed to the BrepExtrema command (MIN/MAX/MINMAX)
+ * \param extAlgo The algorithm passed to the BrepExtrema command (TREE/GRAD)
+ */
+template<class ctype = double>
+ctype computeDistanceToBoundary(const TopoDS_Shape& shape,
+                                const TopoDS_Solid& solid,
+                                ctype deflection = Precision<ctype>::confusion(),
+                                Extrema_ExtFlag extFlag = Extrema_ExtFlag_MINMAX,
+                                Extrema_ExtAlgo extAlgo = Extrema_ExtAlgo_Grad)
+{
+    return computeDistance(shape,
+                           BRepClass3d::OuterShell(solid),
+                           deflection, extFlag, extAlgo);
+}
+
 /*!
  * \ingroup Distance
  * \brief Compute the distance of a shape
diff --git a/frackit/python/geometry/distancetoboundary.hh b/frackit/python/geometry/distancetoboundary.hh
index d17517f..7e32a17 100644
--- a/frackit/python/geometry/distancetoboundary.hh
+++ b/frackit/python/geometry/distancetoboundary.hh
@@ -39,7 +39,7 @@ namespace Detail {
 
 template<class Geo1, class Geo2, class ctype>
 ctype computeDistanceToBoundary(const Geo1& geo1, const Geo2& geo2)
-{ return Frackit::computeDistance(getUnwrappedShape(geo1), getUnwrappedShape(geo2)); }
+{ return Frackit::computeDistanceToBoundary(getUnwrappedShape(geo1), getUnwrappedShape(geo2)); }
 
 } // end namespace Detail
 
-- 
2.43.0


From 523de6fbb1977ef0aaaf654007ebef9011bd008c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:24:47 +0000
Subject: [PATCH 24/40] fix: Python makePointSampler used radii where the
 sampler expects squared radii

---
 python/frackit/sampling/__init__.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/python/frackit/sampling/__init__.py b/python/frackit/sampling/__init__.py
index 907b894..0232beb 100644
--- a/python/frackit/sampling/__init__.py
+++ b/python/frackit/sampling/__init__.py
@@ -121,7 +121,7 @@ def makePointSampler(geometry,
     # cylinder point sampler
     if geometry.name() == "Cylinder":
         import math
-        samplerR2  = samplerCreatorBase1(0.0, geometry.radius())
+        samplerR2  = samplerCreatorBase1(0.0, geometry.radius()*geometry.radius())
         samplerPhi = samplerCreatorBase2(0.0, 2.0*math.pi)
         samplerZ   = samplerCreatorBase3(0.0, geometry.height())
         return CylinderPointSampler(geometry, samplerR2, samplerPhi, samplerZ)
@@ -129,7 +129,8 @@ def makePointSampler(geometry,
     # hollow cylinder point sampler
     if geometry.name() == "HollowCylinder":
         import math
-        samplerR2  = samplerCreatorBase1(geometry.innerRadius(), geometry.outerRadius())
+        samplerR2  = samplerCreatorBase1(geometry.innerRadius()*geometry.innerRadius(),
+                                         geometry.outerRadius()*geometry.outerRadius())
         samplerPhi = samplerCreatorBase2(0.0, 2.0*math.pi)
         samplerZ   = samplerCreatorBase3(0.0, geometry.height())
         return CylinderPointSampler(geometry.fullCylinder(), samplerR2, samplerPhi, samplerZ)
-- 
2.43.0


From 8a1b0a963af1d289685e50c7e5719d4d7d3fb267 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:24:47 +0000
Subject: [PATCH 25/40] fix: rejection loops of the Python polygon sampler
 never ended or did not test the sampled value

---
 python/frackit/sampling/__init__.py | 11 ++++++-----
 1 file changed, 6 insertions(+), 5 deletions(-)

diff --git a/python/frackit/sampling/__init__.py b/python/frackit/sampling/__init__.py
index 0232beb..b4ee379 100644
--- a/python/frackit/sampling/__init__.py
+++ b/python/frackit/sampling/__init__.py
@@ -232,8 +232,9 @@ class PolygonSampler:
         numCorners = 0
         while numCorners < 3 and count < 100:
             numCorners = self.numCornersSampler()
+            count += 1
 
-        if count == 100:
+        if numCorners < 3:
             raise RuntimeError("Did not obtain more than 3 corners after sampling " \
                                "100 times from the provided distribution.")
 
@@ -301,16 +302,16 @@ class PolygonSampler:
         dipLength = self.dipLengthSampler()
 
         countStrike = 0;
-        while strikeLength < 0.0 and countStrike < 100:
+        while strikeLength <= 0.0 and countStrike < 100:
             strikeLength = self.strikeLengthSampler()
             countStrike += 1
-        if countStrike == 100: raise RuntimeError("Could not sample strike dimension > 0.0 in 100 tries")
+        if strikeLength <= 0.0: raise RuntimeError("Could not sample strike dimension > 0.0 in 100 tries")
 
         countDip = 0;
-        while strikeLength < 0.0 and countDip < 100:
+        while dipLength <= 0.0 and countDip < 100:
             dipLength = self.dipLengthSampler()
             countDip += 1
-        if countDip == 100: raise RuntimeError("Could not sample dip dimension > 0.0 in 100 tries")
+        if dipLength <= 0.0: raise RuntimeError("Could not sample dip dimension > 0.0 in 100 tries")
 
         # construct edge vectors
         from frackit.geometry import Vector
-- 
2.43.0


From 23291f31502256dde4a4e48f6ba0273d170054e5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:24:47 +0000
Subject: [PATCH 26/40] fix: Python constraints evaluation on lists passed the
 list instead of the geometry

---
 python/frackit/entitynetwork/__init__.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/python/frackit/entitynetwork/__init__.py b/python/frackit/entitynetwork/__init__.py
index 50ebc20..2c4abc3 100644
--- a/python/frackit/entitynetwork/__init__.py
+++ b/python/frackit/entitynetwork/__init__.py
@@ -16,7 +16,7 @@ class EntityNetworkConstraints(_entitynetwork._EntityNetworkConstraints):
         isListB = isinstance(b, list)
 
         def evalList(theList, geo):
-            return all( super(EntityNetworkConstraints, self).evaluate(item, b) for item in theList )
+            return all( super(EntityNetworkConstraints, self).evaluate(item, geo) for item in theList )
 
         if isListA and not isListB:
             return evalList(a, b)
-- 
2.43.0


From 2f7278a34abbd1a1d75c68bd7957ae1a70a1f29a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:24:47 +0000
Subject: [PATCH 27/40] fix: computeContainedMagnitude and defaultEpsilon were
 not available for polygons in Python

---
 frackit/python/geometry/magnitude.hh       | 4 ++++
 frackit/python/precision/defaultepsilon.hh | 2 ++
 2 files changed, 6 insertions(+)

diff --git a/frackit/python/geometry/magnitude.hh b/frackit/python/geometry/magnitude.hh
index e3c536f..8fa9ec6 100644
--- a/frackit/python/geometry/magnitude.hh
+++ b/frackit/python/geometry/magnitude.hh
@@ -120,6 +120,10 @@ void registerContainedMagnitude(py::module& module)
     Detail::registerContainedMagnitude< Quadrilateral<ctype, 3>, Cylinder<ctype> >(module);
     Detail::registerContainedMagnitude< Quadrilateral<ctype, 3>, SolidWrapper >(module);
 
+    Detail::registerContainedMagnitude< Polygon<ctype, 3>, Box<ctype> >(module);
+    Detail::registerContainedMagnitude< Polygon<ctype, 3>, Cylinder<ctype> >(module);
+    Detail::registerContainedMagnitude< Polygon<ctype, 3>, SolidWrapper >(module);
+
     Detail::registerContainedMagnitude< FaceWrapper, Box<ctype> >(module);
     Detail::registerContainedMagnitude< FaceWrapper, Cylinder<ctype> >(module);
     Detail::registerContainedMagnitude< FaceWrapper, SolidWrapper >(module);
diff --git a/frackit/python/precision/defaultepsilon.hh b/frackit/python/precision/defaultepsilon.hh
index 4271341..b6c443a 100644
--- a/frackit/python/precision/defaultepsilon.hh
+++ b/frackit/python/precision/defaultepsilon.hh
@@ -27,6 +27,7 @@
 #include <frackit/geometry/ellipse.hh>
 #include <frackit/geometry/disk.hh>
 #include <frackit/geometry/quadrilateral.hh>
+#include <frackit/geometry/polygon.hh>
 #include <frackit/geometry/cylindersurface.hh>
 #include <frackit/geometry/box.hh>
 #include <frackit/python/geometry/brepwrapper.hh>
@@ -63,6 +64,7 @@ void registerDefaultEpsilon(py::module& module)
     Detail::registerDefaultEpsilon<Ellipse<ctype, 3>>(module);
     Detail::registerDefaultEpsilon<Disk<ctype>>(module);
     Detail::registerDefaultEpsilon<Quadrilateral<ctype, 3>>(module);
+    Detail::registerDefaultEpsilon<Polygon<ctype, 3>>(module);
     Detail::registerDefaultEpsilon<CylinderSurface<ctype>>(module);
     Detail::registerDefaultEpsilon<Box<ctype>>(module);
     Detail::registerDefaultEpsilon<ShapeWrapper>(module);
-- 
2.43.0


From 56352cbd84e9193e8b1a77cf4bf2ddd51b13e5cd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:24:47 +0000
Subject: [PATCH 28/40] fix: parsing a shape without entity of the requested
 type accessed an empty vector

---
 frackit/python/occutilities/breputilities.hh | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/frackit/python/occutilities/breputilities.hh b/frackit/python/occutilities/breputilities.hh
index 936cad5..2d99cd3 100644
--- a/frackit/python/occutilities/breputilities.hh
+++ b/frackit/python/occutilities/breputilities.hh
@@ -61,7 +61,7 @@ namespace Detail {
     template<class ResultShape>
     ResultShape getSingleEntity(const std::vector<ResultShape>& resultShapes)
     {
-        if (resultShapes.size() > 1)
+        if (resultShapes.size() != 1)
             throw std::runtime_error("Expected a single entity of desired type");
         return resultShapes[0];
     }
-- 
2.43.0


From b4255b7ad1897a9b71152a357bb74b7a5bc31ee9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:32:35 +0000
Subject: [PATCH 29/40] fix: pointOnGeometry for points of less than three
 dimensions does not compile

---
 frackit/distance/pointongeometry.hh | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/frackit/distance/pointongeometry.hh b/frackit/distance/pointongeometry.hh
index 78f9881..8d8b92d 100644
--- a/frackit/distance/pointongeometry.hh
+++ b/frackit/distance/pointongeometry.hh
@@ -46,7 +46,7 @@ namespace Frackit {
 template<class ctype1, int wd, class Geo, class ctype2>
 bool pointOnGeometry(const Point<ctype1, wd>& p, const Geo& geo, ctype2 eps)
 {
-    static_assert(wd == DimensionalityTraits<Geo>::geomDim, "World dimension mismatch");
+    static_assert(wd == DimensionalityTraits<Geo>::worldDimension(), "World dimension mismatch");
     return geo.contains(p, eps);
 }
 
-- 
2.43.0


From 262e26af394b0cb9654851cfc7453925b412cd47 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:26:30 +0000
Subject: [PATCH 30/40] fix: network fragments contained the section edges and
 vertices of crossing entities, which made BRep/Gmsh output throw

---
 frackit/entitynetwork/networkbuilder.hh | 22 +++-------------------
 1 file changed, 3 insertions(+), 19 deletions(-)

diff --git a/frackit/entitynetwork/networkbuilder.hh b/frackit/entitynetwork/networkbuilder.hh
index 99215e8..2874228 100644
--- a/frackit/entitynetwork/networkbuilder.hh
+++ b/frackit/entitynetwork/networkbuilder.hh
@@ -255,18 +255,12 @@ protected:
 
                 // map all fragments to this new index
                 const bool isDeleted = intersection.IsDeleted(entityShape);
-                const auto& generated = intersection.Generated(entityShape);
                 const auto& modified = intersection.Modified(entityShape);
-                if (!isDeleted && generated.IsEmpty() && modified.IsEmpty())
+                if (!isDeleted && modified.IsEmpty())
                 {
                     newIndexMap.Bind(entityShape, entityIdx);
                     newList.Append(entityShape);
                 }
-                for (const auto& fragment : generated)
-                {
-                    if (!newIndexMap.IsBound(fragment)) newIndexMap.Bind(fragment, entityIdx);
-                    if (!newList.Contains(fragment)) newList.Append(fragment);
-                }
                 for (const auto& fragment : modified)
                 {
                     if (!newIndexMap.IsBound(fragment)) newIndexMap.Bind(fragment, entityIdx);
@@ -348,20 +342,14 @@ protected:
 
             // map all fragments to this new index
             const bool isDeleted = fragmentAlgo.IsDeleted(shape);
-            const auto& generated = fragmentAlgo.Generated(shape);
             const auto& modified = fragmentAlgo.Modified(shape);
             auto& newList = newFragmentLists[subDomainIdx];
             auto& newMap = newFragmentMaps[subDomainIdx];
-            if (!isDeleted && generated.IsEmpty() && modified.IsEmpty())
+            if (!isDeleted && modified.IsEmpty())
             {
                 newMap.Bind(shape, entityIdx);
                 newList.Append(shape);
             }
-            for (const auto& fragment : generated)
-            {
-                if (!newMap.IsBound(fragment)) newMap.Bind(fragment, entityIdx);
-                if (!newList.Contains(fragment)) newList.Append(fragment);
-            }
             for (const auto& fragment : modified)
             {
                 if (!newMap.IsBound(fragment)) newMap.Bind(fragment, entityIdx);
@@ -385,15 +373,11 @@ protected:
 
             // store the fragments of this sub-domain
             const bool isDeleted = fragmentAlgo.IsDeleted(domainShape);
-            const auto& generated = fragmentAlgo.Generated(domainShape);
             const auto& modified = fragmentAlgo.Modified(domainShape);
 
             auto& sdFragmentList = subDomainFragmentLists_[subDomainIdx];
-            if (!isDeleted && generated.IsEmpty() && modified.IsEmpty())
+            if (!isDeleted && modified.IsEmpty())
                 sdFragmentList.Append(domainShape);
-            for (const auto& fragment : generated)
-                if (!sdFragmentList.Contains(fragment))
-                    sdFragmentList.Append(fragment);
             for (const auto& fragment : modified)
                 if (!sdFragmentList.Contains(fragment))
                     sdFragmentList.Append(fragment);
-- 
2.43.0


From 0d7f782580ef4cd250e6451c6028b871f147e9d5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:26:38 +0000
Subject: [PATCH 31/40] fix: intersection edges were not labelled in the output
 if the orientation of all adjacent faces differs from the one written

---
 frackit/io/brepwriter.hh | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/frackit/io/brepwriter.hh b/frackit/io/brepwriter.hh
index fd23699..89d0b0d 100644
--- a/frackit/io/brepwriter.hh
+++ b/frackit/io/brepwriter.hh
@@ -185,7 +185,7 @@ private:
                 std::vector<std::size_t> handled;
                 for (unsigned int eIdx = 0; eIdx < edges.size(); ++eIdx)
                     for (const auto& isList : entityIntersections_)
-                        if (isList.Contains(edges[eIdx]))
+                        if (contains_(isList, edges[eIdx]))
                             handled.push_back(eIdx);
 
                 if (handled.size() != edges.size())
@@ -325,7 +325,7 @@ private:
 
                 // start from index 1 in the map
                 for (std::size_t isIdx = 0; isIdx < entityIntersections_.size(); ++isIdx)
-                    if (entityIntersections_[isIdx].Contains(edge))
+                    if (contains_(entityIntersections_[isIdx], edge))
                         entityIntersectionsToFragmentsMap_[isIdx+1].push_back(curEntityIdx);
 
                 addVertices_(edgeExp.Current());
@@ -349,6 +349,10 @@ private:
         }
     }
 
+    //! Returns true if a list contains a shape (with any orientation)
+    static bool contains_(const TopTools_ListOfShape& list, const TopoDS_Shape& shape)
+    { return std::any_of(list.begin(), list.end(), [&shape] (const auto& s) { return s.IsSame(shape); }); }
+
     // containers to store the primary entities
     TopTools_ListOfShape allEntities_;
     TopTools_DataMapOfShapeInteger allEntitiesIndexMap_;
-- 
2.43.0


From dd961a7334190f7d1bb391b1293421e8fd6b4c0d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:26:38 +0000
Subject: [PATCH 32/40] fix: fragments shared by entities of opposite
 orientation were listed twice in a network

---
 frackit/entitynetwork/networkbuilder.hh | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/frackit/entitynetwork/networkbuilder.hh b/frackit/entitynetwork/networkbuilder.hh
index 2874228..878089f 100644
--- a/frackit/entitynetwork/networkbuilder.hh
+++ b/frackit/entitynetwork/networkbuilder.hh
@@ -263,8 +263,9 @@ protected:
                 }
                 for (const auto& fragment : modified)
                 {
-                    if (!newIndexMap.IsBound(fragment)) newIndexMap.Bind(fragment, entityIdx);
-                    if (!newList.Contains(fragment)) newList.Append(fragment);
+                    if (newIndexMap.IsBound(fragment)) continue;
+                    newIndexMap.Bind(fragment, entityIdx);
+                    newList.Append(fragment);
                 }
             }
 
@@ -352,8 +353,9 @@ protected:
             }
             for (const auto& fragment : modified)
             {
-                if (!newMap.IsBound(fragment)) newMap.Bind(fragment, entityIdx);
-                if (!newList.Contains(fragment)) newList.Append(fragment);
+                if (newMap.IsBound(fragment)) continue;
+                newMap.Bind(fragment, entityIdx);
+                newList.Append(fragment);
             }
         }
 
-- 
2.43.0


From b4dbdd0a9b6ae4097d1d73cf24dd9028a27342ff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:14:44 +0000
Subject: [PATCH 33/40] fix: Python constraints matrix only evaluated relations
 to sets that have relations of their own

---
 python/frackit/entitynetwork/__init__.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/python/frackit/entitynetwork/__init__.py b/python/frackit/entitynetwork/__init__.py
index 2c4abc3..290f4c6 100644
--- a/python/frackit/entitynetwork/__init__.py
+++ b/python/frackit/entitynetwork/__init__.py
@@ -72,7 +72,7 @@ class EntityNetworkConstraintsMatrix:
         if self.constraintsMatrix.get(id) == None:
             return True
 
-        for otherSetId in self.constraintsMatrix:
+        for otherSetId in self.constraintsMatrix.get(id):
             entitySet = entitySets.get(otherSetId)
 
             # set is empty, skip rest
-- 
2.43.0


From 5befe3493e7101e894889e8e19a199ec7ac129fd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:14:44 +0000
Subject: [PATCH 34/40] fix: intersection of collinear segments that touch in a
 corner was a segment of zero length

---
 .../intersection/algorithms/algo_segment_segment.hh  | 12 ++++++++----
 1 file changed, 8 insertions(+), 4 deletions(-)

diff --git a/frackit/intersection/algorithms/algo_segment_segment.hh b/frackit/intersection/algorithms/algo_segment_segment.hh
index cb8ec48..610aaeb 100644
--- a/frackit/intersection/algorithms/algo_segment_segment.hh
+++ b/frackit/intersection/algorithms/algo_segment_segment.hh
@@ -84,11 +84,15 @@ intersect_segment_segment(const Segment<ctype, wd>& segment1,
         const bool t1On2 = segment2.contains(t1, eps, false);
         if (s1On2 && t1On2) return ResultType( segment1 );
 
-        if (s2On1 && s1On2) return ResultType( Segment(s2, s1) );
-        if (s2On1 && t1On2) return ResultType( Segment(s2, t1) );
+        // the segments may overlap only partly or merely touch in a corner
+        const auto makeOverlap = [eps] (const auto& p, const auto& q)
+        { return p.isEqual(q, eps) ? ResultType( p ) : ResultType( Segment(p, q) ); };
 
-        if (t2On1 && s1On2) return ResultType( Segment(t2, s1) );
-        if (t2On1 && t1On2) return ResultType( Segment(t2, t1) );
+        if (s2On1 && s1On2) return makeOverlap(s2, s1);
+        if (s2On1 && t1On2) return makeOverlap(s2, t1);
+
+        if (t2On1 && s1On2) return makeOverlap(t2, s1);
+        if (t2On1 && t1On2) return makeOverlap(t2, t1);
     }
 
     // Fragment the lines to find the intersection point
-- 
2.43.0


From 501ce603ba17c69e42b3544c35a05a359c127710 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:14:44 +0000
Subject: [PATCH 35/40] fix: planar geometries touching each other in a single
 corner were found not to intersect

---
 .../algorithms/algo_planargeom_planargeom.hh             | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/frackit/intersection/algorithms/algo_planargeom_planargeom.hh b/frackit/intersection/algorithms/algo_planargeom_planargeom.hh
index 51eced1..10e1b9f 100644
--- a/frackit/intersection/algorithms/algo_planargeom_planargeom.hh
+++ b/frackit/intersection/algorithms/algo_planargeom_planargeom.hh
@@ -125,6 +125,15 @@ intersect_planarGeometry_planarGeometry(const PlanarGeom1& faceGeom1,
                 return ResultType( p1 );
         }
 
+        // both faces may touch the intersection line in the same point
+        else if (std::holds_alternative<Point<ctype, worldDim>>(is1)
+            && std::holds_alternative<Point<ctype, worldDim>>(is2))
+        {
+            const auto& p1 = std::get<Point<ctype, worldDim>>(is1);
+            if (p1.isEqual(std::get<Point<ctype, worldDim>>(is2), eps))
+                return ResultType( p1 );
+        }
+
         // intersection is empty
         return ResultType( EmptyIntersection<worldDim>() );
     }
-- 
2.43.0


From 8ebea1517711986340818340e182af20ddaf620a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:19:47 +0000
Subject: [PATCH 36/40] fix: headers relied on the includes of others (not
 self-contained)

---
 frackit/common/id.hh                                          | 3 +++
 frackit/entitynetwork/constraints_impl/admissibledimension.hh | 1 +
 frackit/entitynetwork/constraintsmatrix.hh                    | 1 +
 frackit/entitynetwork/multigeometryentityset.hh               | 1 +
 frackit/geometryutilities/isplanar.hh                         | 1 +
 frackit/intersection/algorithms/algo_plane_line.hh            | 1 +
 frackit/intersection/emptyintersection.hh                     | 1 +
 frackit/sampling/multigeometrysampler.hh                      | 1 +
 8 files changed, 10 insertions(+)

diff --git a/frackit/common/id.hh b/frackit/common/id.hh
index d073096..08a6d97 100644
--- a/frackit/common/id.hh
+++ b/frackit/common/id.hh
@@ -24,6 +24,9 @@
 #ifndef FRACKIT_ID_HH
 #define FRACKIT_ID_HH
 
+#include <cstddef>
+#include <functional>
+
 namespace Frackit {
 
 /*!
diff --git a/frackit/entitynetwork/constraints_impl/admissibledimension.hh b/frackit/entitynetwork/constraints_impl/admissibledimension.hh
index 52029ec..55c052c 100644
--- a/frackit/entitynetwork/constraints_impl/admissibledimension.hh
+++ b/frackit/entitynetwork/constraints_impl/admissibledimension.hh
@@ -23,6 +23,7 @@
 #ifndef FRACKIT_ENTITYNETWORK_CONSTRAINT_IMPL_ADMISSIBLE_DIMENSION_HH
 #define FRACKIT_ENTITYNETWORK_CONSTRAINT_IMPL_ADMISSIBLE_DIMENSION_HH
 
+#include <algorithm>
 #include <variant>
 #include <vector>
 
diff --git a/frackit/entitynetwork/constraintsmatrix.hh b/frackit/entitynetwork/constraintsmatrix.hh
index 22884f8..5cc45ce 100644
--- a/frackit/entitynetwork/constraintsmatrix.hh
+++ b/frackit/entitynetwork/constraintsmatrix.hh
@@ -27,6 +27,7 @@
 #ifndef FRACKIT_ENTITYNETWORK_CONSTRAINTS_MATRIX_HH
 #define FRACKIT_ENTITYNETWORK_CONSTRAINTS_MATRIX_HH
 
+#include <algorithm>
 #include <stdexcept>
 #include <utility>
 #include <vector>
diff --git a/frackit/entitynetwork/multigeometryentityset.hh b/frackit/entitynetwork/multigeometryentityset.hh
index 452d15a..43b96ca 100644
--- a/frackit/entitynetwork/multigeometryentityset.hh
+++ b/frackit/entitynetwork/multigeometryentityset.hh
@@ -27,6 +27,7 @@
 #ifndef FRACKIT_MULTI_GEOMETRY_ENTITY_SET_HH
 #define FRACKIT_MULTI_GEOMETRY_ENTITY_SET_HH
 
+#include <algorithm>
 #include <tuple>
 #include <vector>
 #include <string>
diff --git a/frackit/geometryutilities/isplanar.hh b/frackit/geometryutilities/isplanar.hh
index f8822db..bbe4b31 100644
--- a/frackit/geometryutilities/isplanar.hh
+++ b/frackit/geometryutilities/isplanar.hh
@@ -29,6 +29,7 @@
 #include <TopoDS_Shell.hxx>
 
 #include <frackit/geometry/cylindersurface.hh>
+#include <frackit/geometry/dimension.hh>
 
 namespace Frackit {
 
diff --git a/frackit/intersection/algorithms/algo_plane_line.hh b/frackit/intersection/algorithms/algo_plane_line.hh
index 24e2fff..411fce1 100644
--- a/frackit/intersection/algorithms/algo_plane_line.hh
+++ b/frackit/intersection/algorithms/algo_plane_line.hh
@@ -27,6 +27,7 @@
 #include <stdexcept>
 
 #include <Geom_Line.hxx>
+#include <Geom_Plane.hxx>
 #include <Geom_Surface.hxx>
 #include <GeomAPI_IntCS.hxx>
 #include <Standard_Handle.hxx>
diff --git a/frackit/intersection/emptyintersection.hh b/frackit/intersection/emptyintersection.hh
index 292e08e..66e0e66 100644
--- a/frackit/intersection/emptyintersection.hh
+++ b/frackit/intersection/emptyintersection.hh
@@ -26,6 +26,7 @@
 
 #include <string>
 #include <variant>
+#include <vector>
 #include <algorithm>
 #include <frackit/geometry/geometry.hh>
 
diff --git a/frackit/sampling/multigeometrysampler.hh b/frackit/sampling/multigeometrysampler.hh
index 1f34c43..44f6c81 100644
--- a/frackit/sampling/multigeometrysampler.hh
+++ b/frackit/sampling/multigeometrysampler.hh
@@ -27,6 +27,7 @@
 #ifndef FRACKIT_MULTI_GEOMETRY_SAMPLER_HH
 #define FRACKIT_MULTI_GEOMETRY_SAMPLER_HH
 
+#include <cassert>
 #include <tuple>
 #include <vector>
 #include <string>
-- 
2.43.0


From 389217967e30fef2cb9d2a935532ec0045b94f6a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:22:48 +0000
Subject: [PATCH 37/40] fix: Vector::isParallel did not detect parallel vectors
 if the scalar product of the unit vectors is subject to rounding

---
 frackit/geometry/vector.hh | 15 +++++++++------
 1 file changed, 9 insertions(+), 6 deletions(-)

diff --git a/frackit/geometry/vector.hh b/frackit/geometry/vector.hh
index fcf0319..6051253 100644
--- a/frackit/geometry/vector.hh
+++ b/frackit/geometry/vector.hh
@@ -127,12 +127,15 @@ public:
             return true;
 
         // we assume non-degenerate vectors!
-        const auto thisNorm = length();
-        const auto otherNorm = other.length();
-
-        using std::acos; using std::abs;
-        const auto angle = abs(acos( (*this)*other/thisNorm/otherNorm ));
-        return angle < angularEps || abs(angle - M_PI) < angularEps;
+        Impl v1(asImp_()); v1 /= length();
+        Impl v2(other);    v2 /= other.length();
+
+        // compute the angle from the distance between the unit vectors, as
+        // acos() of their scalar product is inaccurate for small angles and
+        // undefined if rounding makes the product exceed one.
+        using std::asin; using std::min;
+        const auto dist = min((v1 - v2).length(), (v1 + v2).length());
+        return 2.0*asin(0.5*dist) < angularEps;
     }
 
     //! Scalar product with another vector
-- 
2.43.0


From 4caebdaf901152ad9487cd634c9877314c9baa80 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:22:48 +0000
Subject: [PATCH 38/40] fix: intersection angle of parallel planes was
 undefined (and thus admissible) if rounding makes the cosine exceed one

---
 frackit/intersection/intersectionangle.hh | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/frackit/intersection/intersectionangle.hh b/frackit/intersection/intersectionangle.hh
index dbdd062..16dd871 100644
--- a/frackit/intersection/intersectionangle.hh
+++ b/frackit/intersection/intersectionangle.hh
@@ -28,6 +28,8 @@
 #include <cmath>
 #include <algorithm>
 #include <cassert>
+#include <cmath>
+#include <algorithm>
 #include <variant>
 #include <array>
 #include <vector>
@@ -113,8 +115,12 @@ public:
 
         using std::abs;
         using std::acos;
+        using std::min;
         using Vector = Vector<ctype, wd>;
-        return acos( abs(Vector(plane1.normal())*Vector(plane2.normal())) );
+
+        // rounding may make the scalar product of the normals exceed one
+        const ctype cosAngle = abs(Vector(plane1.normal())*Vector(plane2.normal()));
+        return acos( min(cosAngle, ctype(1.0)) );
     }
 
     /*!
-- 
2.43.0


From b82b3eb6081154f3ccec6617f8eefc3a441a8fbf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:34:41 +0000
Subject: [PATCH 39/40] fix: computeContainedMagnitude did not compile for
 cylinder surfaces

---
 frackit/magnitude/containedmagnitude.hh | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/frackit/magnitude/containedmagnitude.hh b/frackit/magnitude/containedmagnitude.hh
index f516370..55442ca 100644
--- a/frackit/magnitude/containedmagnitude.hh
+++ b/frackit/magnitude/containedmagnitude.hh
@@ -35,6 +35,7 @@
 #include <frackit/geometry/ctype.hh>
 #include <frackit/geometry/geometry.hh>
 #include <frackit/geometryutilities/applyongeometry.hh>
+#include <frackit/geometryutilities/isplanar.hh>
 
 #include "magnitude.hh"
 
@@ -101,7 +102,8 @@ computeContainedMagnitude(const Geometry& geometry,
     for (const auto& face : isFaces)
     {
         // TODO: Compute center point for TopoDS_Face?
-        if constexpr (std::is_same_v<Geometry, TopoDS_Face>)
+        // Curved geometries do not define a center point either
+        if constexpr (!IsPlanarGeometry<Geometry>::value)
             size += computeMagnitude(face);
         else
             size += computeMagnitude(face,
-- 
2.43.0


From 8a955409b62408fe5145a474545ac353104e4d6b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:53:57 +0000
Subject: [PATCH 40/40] fix: networks of a single entity could not be built
 (the kernel does not fragment less than two shapes)

---
 frackit/entitynetwork/networkbuilder.hh | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/frackit/entitynetwork/networkbuilder.hh b/frackit/entitynetwork/networkbuilder.hh
index 878089f..ec47eb4 100644
--- a/frackit/entitynetwork/networkbuilder.hh
+++ b/frackit/entitynetwork/networkbuilder.hh
@@ -316,6 +316,14 @@ protected:
         for (const auto& domainShape : allDomains)
             allShapes.Append(domainShape);
 
+        // a single shape is not fragmented (the kernel algorithm fails for less than two shapes)
+        if (allShapes.Extent() == 1)
+        {
+            if (!allDomains.IsEmpty())
+                subDomainFragmentLists_[subDomains_.begin()->first] = allDomains;
+            return;
+        }
+
         // fragment all shapes
         BRepAlgoAPI_BuilderAlgo fragmentAlgo;
         fragmentAlgo.SetRunParallel(false);
-- 
2.43.0

