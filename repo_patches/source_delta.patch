From 31eab50807038fb92783894dc34dcc26eaa14425 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:16:25 +0000
Subject: [PATCH 01/33] fix: Point::isValid reported the opposite of the point
 validity, so cached centroids were never computed

---
 delynoi/src/models/basic/Point.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/delynoi/src/models/basic/Point.cpp b/delynoi/src/models/basic/Point.cpp
index 6b14fe4..0bea35e 100644
--- a/delynoi/src/models/basic/Point.cpp
+++ b/delynoi/src/models/basic/Point.cpp
@@ -14,7 +14,7 @@ Point::Point() {
 }
 
 bool Point::isValid() {
-    return this->isEmpty;
+    return !this->isEmpty;
 }
 
 double Point::getX() const{
-- 
2.43.0


From 6985c54e51eeeba025498fe52ceb7535fde49ae2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:16:25 +0000
Subject: [PATCH 02/33] fix: reject self intersecting polygons built from a
 list of points

---
 delynoi/src/models/polygon/Polygon.cpp | 9 ++-------
 1 file changed, 2 insertions(+), 7 deletions(-)

diff --git a/delynoi/src/models/polygon/Polygon.cpp b/delynoi/src/models/polygon/Polygon.cpp
index 5e8e16d..b3dbd6b 100644
--- a/delynoi/src/models/polygon/Polygon.cpp
+++ b/delynoi/src/models/polygon/Polygon.cpp
@@ -33,15 +33,10 @@ void Polygon::mutate(std::vector<Point> &p) {
 }
 
 Polygon::Polygon(std::vector<Point> &p) {
-    if(isSelfIntersecting(p)){
-        std::invalid_argument("Self intersecting polygons are not supported");
-    }
-
     delynoi_utilities::TrivialIndexVector(this->points,p.size());
 
-    std::vector<Point> this_points;
-    for(int i=0;i<points.size();i++){
-        this_points.push_back(p[points[i]]);
+    if(isSelfIntersecting(p)){
+        throw std::invalid_argument("Self intersecting polygons are not supported");
     }
 
     this->diameter = -1;
-- 
2.43.0


From 573a22140a7f4a528126440cd7e92d539d2cabb0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:16:25 +0000
Subject: [PATCH 03/33] fix: copying a Region lost its seed points

---
 delynoi/src/models/Region.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/delynoi/src/models/Region.cpp b/delynoi/src/models/Region.cpp
index b10a28e..9de9b98 100644
--- a/delynoi/src/models/Region.cpp
+++ b/delynoi/src/models/Region.cpp
@@ -25,6 +25,7 @@ Region::Region(const Polygon &other, std::vector<Point>& points) : Polygon() {
 Region::Region(const Region &other) : Polygon(other){
     this->p = other.p;
     this->holes.assign(other.holes.begin(), other.holes.end());
+    this->seedPoints.assign(other.seedPoints.begin(), other.seedPoints.end());
 }
 
 std::vector<Hole>& Region::getHoles() {
-- 
2.43.0


From 660805d9cb2ff59e29e89320dfef69bf1f68ee71 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:16:25 +0000
Subject: [PATCH 04/33] fix: seed points outside of the region were kept when
 the region changed or a hole was added

---
 delynoi/src/models/Region.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/delynoi/src/models/Region.cpp b/delynoi/src/models/Region.cpp
index 9de9b98..bf96bf9 100644
--- a/delynoi/src/models/Region.cpp
+++ b/delynoi/src/models/Region.cpp
@@ -7,6 +7,7 @@ Region::Region(std::vector<Point>& points) : Polygon(points){
 void Region::mutate(std::vector<Point> &points) {
     this->p = points;
     Polygon::mutate(points);
+    this->clean();
 }
 
 Region::Region() : Polygon(){}
@@ -74,6 +75,7 @@ void Region::addHole(Hole h) {
 
         if(Polygon::containsPoint(this->p, h.getCenter())){
             this->holes.push_back(h);
+            this->clean();
         }else{
             throw std::invalid_argument("Hole lies completely outside of domain region");
         }
-- 
2.43.0


From e172406a0f6010f166c8256a59516db65d167dbc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:16:25 +0000
Subject: [PATCH 05/33] fix: addSeedPoints discarded the previously generated
 seed points

---
 delynoi/src/models/Region.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/delynoi/src/models/Region.cpp b/delynoi/src/models/Region.cpp
index bf96bf9..3a4caff 100644
--- a/delynoi/src/models/Region.cpp
+++ b/delynoi/src/models/Region.cpp
@@ -93,7 +93,7 @@ void Region::generateSeedPoints(PointGenerator p, int nX, int nY){
 }
 
 void Region::addSeedPoints(std::vector<Point>& seeds) {
-    this->seedPoints.assign(seeds.begin(), seeds.end());
+    this->seedPoints.insert(this->seedPoints.end(), seeds.begin(), seeds.end());
     this->clean();
 }
 
-- 
2.43.0


From 1158ef49a896eed4efdab0c4fc6ab2b90b6beb3f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:16:53 +0000
Subject: [PATCH 06/33] fix: scaled Clipper coordinates overflowed int for
 coordinates above 21474

---
 delynoi/src/models/Region.cpp                      | 8 ++++----
 delynoi/src/models/hole/clipper/ClipperWrapper.cpp | 2 +-
 2 files changed, 5 insertions(+), 5 deletions(-)

diff --git a/delynoi/src/models/Region.cpp b/delynoi/src/models/Region.cpp
index 3a4caff..b163d32 100644
--- a/delynoi/src/models/Region.cpp
+++ b/delynoi/src/models/Region.cpp
@@ -45,14 +45,14 @@ void Region::addHole(Hole h) {
     ClipperLib::Paths solution;
 
     for(int i=0;i<this->p.size(); i++){
-        region << ClipperLib::IntPoint((int)(config->getScale()*this->p[i].getX()),
-                                       (int)(config->getScale()*this->p[i].getY()));
+        region << ClipperLib::IntPoint((ClipperLib::cInt)(config->getScale()*this->p[i].getX()),
+                                       (ClipperLib::cInt)(config->getScale()*this->p[i].getY()));
     }
 
     std::vector<Point> holePoints = h.getPoints();
     for(int i=0;i<holePoints.size();i++){
-        hole << ClipperLib::IntPoint((int)(config->getScale()*holePoints[i].getX()),
-                                     (int)(config->getScale()*holePoints[i].getY()));
+        hole << ClipperLib::IntPoint((ClipperLib::cInt)(config->getScale()*holePoints[i].getX()),
+                                     (ClipperLib::cInt)(config->getScale()*holePoints[i].getY()));
     }
 
     ClipperLib::Clipper clipper;
diff --git a/delynoi/src/models/hole/clipper/ClipperWrapper.cpp b/delynoi/src/models/hole/clipper/ClipperWrapper.cpp
index 76f31b8..d1db946 100644
--- a/delynoi/src/models/hole/clipper/ClipperWrapper.cpp
+++ b/delynoi/src/models/hole/clipper/ClipperWrapper.cpp
@@ -21,7 +21,7 @@ ClipperLib::Paths ClipperWrapper::polyIntersection(std::vector<Point> parent, st
 }
 
 ClipperLib::IntPoint ClipperWrapper::scalePoint(Point point, int maxScale) {
-    return ClipperLib::IntPoint((int)(maxScale*point.getX()), (int)(maxScale*point.getY()));
+    return ClipperLib::IntPoint((ClipperLib::cInt)(maxScale*point.getX()), (ClipperLib::cInt)(maxScale*point.getY()));
 }
 
 
-- 
2.43.0


From 924c0c326eaf0bf9f16013f306211146abc27c14 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:16:53 +0000
Subject: [PATCH 07/33] fix: a hole completely outside of the region was
 accepted, rewriting the region

---
 delynoi/src/models/Region.cpp | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/delynoi/src/models/Region.cpp b/delynoi/src/models/Region.cpp
index b163d32..7702010 100644
--- a/delynoi/src/models/Region.cpp
+++ b/delynoi/src/models/Region.cpp
@@ -58,6 +58,12 @@ void Region::addHole(Hole h) {
     ClipperLib::Clipper clipper;
     clipper.AddPath(region, ClipperLib::ptSubject, true);
     clipper.AddPath(hole, ClipperLib::ptClip, true);
+    clipper.Execute(ClipperLib::ctIntersection, solution, ClipperLib::pftNonZero, ClipperLib::pftNonZero);
+
+    if(solution.empty()){
+        throw std::invalid_argument("Hole lies completely outside of domain region");
+    }
+
     clipper.Execute(ClipperLib::ctDifference, solution, ClipperLib::pftNonZero, ClipperLib::pftNonZero);
 
     if(solution.size()==1){
-- 
2.43.0


From 3813a2c44f264e93ac0182147b4113cefc0cc517 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:16:53 +0000
Subject: [PATCH 08/33] fix: getConformingDelaunayTriangulation returned a
 reference to a local mesh

---
 delynoi/include/delynoi/voronoi/TriangleDelaunayGenerator.h | 2 +-
 delynoi/src/voronoi/TriangleDelaunayGenerator.cpp           | 5 ++---
 2 files changed, 3 insertions(+), 4 deletions(-)

diff --git a/delynoi/include/delynoi/voronoi/TriangleDelaunayGenerator.h b/delynoi/include/delynoi/voronoi/TriangleDelaunayGenerator.h
index ab53d6c..6dd44f9 100644
--- a/delynoi/include/delynoi/voronoi/TriangleDelaunayGenerator.h
+++ b/delynoi/include/delynoi/voronoi/TriangleDelaunayGenerator.h
@@ -62,7 +62,7 @@ public:
      * segments, are Delaunay through the inclusion of additional points)
      * @return the conforming Delaunay triangulation
      */
-    Mesh<Triangle>& getConformingDelaunayTriangulation();
+    Mesh<Triangle> getConformingDelaunayTriangulation();
 
     /* Returns the constrained Delaunay triangulation (triangles next to constrained segments are not necessarily
      * delaunay)
diff --git a/delynoi/src/voronoi/TriangleDelaunayGenerator.cpp b/delynoi/src/voronoi/TriangleDelaunayGenerator.cpp
index 4352961..f24e3c0 100644
--- a/delynoi/src/voronoi/TriangleDelaunayGenerator.cpp
+++ b/delynoi/src/voronoi/TriangleDelaunayGenerator.cpp
@@ -141,14 +141,13 @@ void TriangleDelaunayGenerator::callTriangle(std::vector<Point> &point_list, cha
     free(out.edgemarkerlist);
 }
 
-Mesh<Triangle>& TriangleDelaunayGenerator::getConformingDelaunayTriangulation()  {
+Mesh<Triangle> TriangleDelaunayGenerator::getConformingDelaunayTriangulation()  {
     if(!this->empty){
         char switches[] = "pzejDQ";
         callTriangle(seedPoints, switches);
     }
 
-    Mesh<Triangle> mesh = initializeMesh<Triangle>();
-    return mesh;
+    return initializeMesh<Triangle>();
 }
 
 void
-- 
2.43.0


From 033fa1b5f8587dcdf68d0b96fa85cfa033969f8e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:17:56 +0000
Subject: [PATCH 09/33] fix: every triangulation request after the first one
 returned the triangulation of the first one

---
 .../voronoi/TriangleDelaunayGenerator.h       |  1 -
 .../src/voronoi/TriangleDelaunayGenerator.cpp | 35 +++++++++----------
 2 files changed, 17 insertions(+), 19 deletions(-)

diff --git a/delynoi/include/delynoi/voronoi/TriangleDelaunayGenerator.h b/delynoi/include/delynoi/voronoi/TriangleDelaunayGenerator.h
index 6dd44f9..1ea2246 100644
--- a/delynoi/include/delynoi/voronoi/TriangleDelaunayGenerator.h
+++ b/delynoi/include/delynoi/voronoi/TriangleDelaunayGenerator.h
@@ -38,7 +38,6 @@ private:
     std::vector<EdgeData> edges;
     UniqueList<Point> circumcenters;
     std::unordered_map<Key, int, KeyHasher> edgeMap;
-    bool empty = false;
 
     /* Calls the Triangle library, filling the class members with the result
      * @param point_list points which Delaunay triangulation must be computed
diff --git a/delynoi/src/voronoi/TriangleDelaunayGenerator.cpp b/delynoi/src/voronoi/TriangleDelaunayGenerator.cpp
index f24e3c0..bbef667 100644
--- a/delynoi/src/voronoi/TriangleDelaunayGenerator.cpp
+++ b/delynoi/src/voronoi/TriangleDelaunayGenerator.cpp
@@ -7,14 +7,21 @@ TriangleDelaunayGenerator::TriangleDelaunayGenerator(const std::vector<Point>& p
 }
 
 void TriangleDelaunayGenerator::callTriangle(std::vector<Point> &point_list, char *switches) {
-    this->empty = true;
     this->callTriangle(point_list, switches, std::vector<PointSegment>());
 }
 
 void TriangleDelaunayGenerator::callTriangle(std::vector<Point> &point_list, char *switches,
                                              std::vector<PointSegment> restrictedSegments) {
+    //Each request starts over, so it never mixes with the triangulation of a previous one
+    this->triangles.clear();
+    this->meshPoints.clear();
+    this->delaunayEdges = new SegmentMap;
+    this->points.clear();
+    this->realPoints.clear();
+    this->edges.clear();
+    this->circumcenters.clear();
+    this->edgeMap.clear();
 
-    this->empty = true;
     struct triangulateio in, out;
 
     std::vector<Point> regionPoints = region.getRegionPoints();
@@ -142,10 +149,8 @@ void TriangleDelaunayGenerator::callTriangle(std::vector<Point> &point_list, cha
 }
 
 Mesh<Triangle> TriangleDelaunayGenerator::getConformingDelaunayTriangulation()  {
-    if(!this->empty){
-        char switches[] = "pzejDQ";
-        callTriangle(seedPoints, switches);
-    }
+    char switches[] = "pzejDQ";
+    callTriangle(seedPoints, switches);
 
     return initializeMesh<Triangle>();
 }
@@ -183,29 +188,23 @@ TriangleDelaunayGenerator::writeTriangleInputFile(UniqueList<Point> &point_list,
 }
 
 DelaunayInfo TriangleDelaunayGenerator::getConformingDelaunay() {
-    if(!this->empty){
-        char switches[] = "pzejDQ";
-        callTriangle(seedPoints, switches);
-    }
+    char switches[] = "pzejDQ";
+    callTriangle(seedPoints, switches);
 
     return DelaunayInfo(triangles, meshPoints, delaunayEdges, points, realPoints, edges, edgeMap, circumcenters);
 }
 
 Mesh<Triangle> TriangleDelaunayGenerator::getConstrainedDelaunayTriangulation() {
-    if(!this->empty){
-        char switches[] = "pzejQ";
-        callTriangle(seedPoints, switches);
-    }
+    char switches[] = "pzejQ";
+    callTriangle(seedPoints, switches);
 
     return initializeMesh<Triangle>();
 }
 
 Mesh<Triangle>
 TriangleDelaunayGenerator::getConstrainedDelaunayTriangulation(std::vector<PointSegment> restrictedSegments) {
-    if(!this->empty){
-        char switches[] = "pzejQ";
-        callTriangle(seedPoints, switches, restrictedSegments);
-    }
+    char switches[] = "pzejQ";
+    callTriangle(seedPoints, switches, restrictedSegments);
 
     return initializeMesh<Triangle>();
 }
-- 
2.43.0


From c5b90e71017767db11704bbbcd79b56ad94cce03 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:17:56 +0000
Subject: [PATCH 10/33] fix: restricted segments whose endpoints were not seed
 or region points were silently dropped

---
 delynoi/src/voronoi/TriangleDelaunayGenerator.cpp | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/delynoi/src/voronoi/TriangleDelaunayGenerator.cpp b/delynoi/src/voronoi/TriangleDelaunayGenerator.cpp
index bbef667..fc4be65 100644
--- a/delynoi/src/voronoi/TriangleDelaunayGenerator.cpp
+++ b/delynoi/src/voronoi/TriangleDelaunayGenerator.cpp
@@ -29,6 +29,11 @@ void TriangleDelaunayGenerator::callTriangle(std::vector<Point> &point_list, cha
     pointList.push_list(point_list);
     std::vector<int> regionIndex = pointList.push_list(regionPoints);
 
+    for (PointSegment s: restrictedSegments){
+        std::vector<Point> endpoints = {s.getFirst(), s.getSecond()};
+        pointList.push_list(endpoints);
+    }
+
     in.numberofpoints = pointList.size();
     in.pointlist = (REAL*)malloc(in.numberofpoints*2*sizeof(REAL));
     in.numberofpointattributes = 1;
-- 
2.43.0


From 549b713c7a7ff52bbaad9ec5505016e483d27f4d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:17:56 +0000
Subject: [PATCH 11/33] fix: initializeMesh mixed indexes of the unique point
 list with the original one

---
 .../delynoi/voronoi/TriangleDelaunayGenerator.h       | 11 ++++++++---
 1 file changed, 8 insertions(+), 3 deletions(-)

diff --git a/delynoi/include/delynoi/voronoi/TriangleDelaunayGenerator.h b/delynoi/include/delynoi/voronoi/TriangleDelaunayGenerator.h
index 1ea2246..a3f341a 100644
--- a/delynoi/include/delynoi/voronoi/TriangleDelaunayGenerator.h
+++ b/delynoi/include/delynoi/voronoi/TriangleDelaunayGenerator.h
@@ -104,14 +104,19 @@ public:
 
             for (int j = 0; j < oldPoints.size(); ++j) {
                 newPoints.push_back(indexes[oldPoints[j]]);
-                pointMap->insert(meshPoints[newPoints[j]], i);
+                pointMap->insert(points[newPoints[j]], i);
             }
 
             delynoi_utilities::checkTriangleIntegrity(newPoints);
-            polygons.push_back(T(newPoints, meshPoints));
+            polygons.push_back(T(newPoints, points.getList()));
         }
 
-        return Mesh<T>(points, polygons, this->delaunayEdges, pointMap);
+        SegmentMap* meshEdges = new SegmentMap;
+        for (EdgeData e: this->edges) {
+            meshEdges->insert(IndexSegment(indexes[e.p1], indexes[e.p2]), NeighboursBySegment(e.t1, e.t2));
+        }
+
+        return Mesh<T>(points, polygons, meshEdges, pointMap);
     };
 };
 
-- 
2.43.0


From 7e9a5659ca084bbecbd12d0f8d96fe8565d8b37e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:17:56 +0000
Subject: [PATCH 12/33] fix: UniqueList.h could not be included on its own

---
 lib/utilities/include/utilities/UniqueList.h | 1 +
 1 file changed, 1 insertion(+)

diff --git a/lib/utilities/include/utilities/UniqueList.h b/lib/utilities/include/utilities/UniqueList.h
index 4488837..f2458a8 100644
--- a/lib/utilities/include/utilities/UniqueList.h
+++ b/lib/utilities/include/utilities/UniqueList.h
@@ -4,6 +4,7 @@
 #include <vector>
 #include <algorithm>
 #include <map>
+#include <utilities/utilities.h>
 
 template <class T>
 class UniqueList {
-- 
2.43.0


From c04e5b34ace1a8cdae8e4e173c8eef5e336dd8ae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:18:26 +0000
Subject: [PATCH 13/33] fix: UniqueList::pop_front left the indexes of the
 remaining elements outdated

---
 lib/utilities/include/utilities/UniqueList.h | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/lib/utilities/include/utilities/UniqueList.h b/lib/utilities/include/utilities/UniqueList.h
index f2458a8..09a04c2 100644
--- a/lib/utilities/include/utilities/UniqueList.h
+++ b/lib/utilities/include/utilities/UniqueList.h
@@ -67,10 +67,13 @@ int UniqueList<T>::force_push_back(T &item) {
 
 template <class T>
 void UniqueList<T>::pop_front() {
-    T elem = this->list[0];
-
     this->list.erase(this->list.begin());
-    this->map.erase(elem);
+    this->map.clear();
+
+    for (int i=0;i<this->list.size();i++){
+        T e = this->list[i];
+        map.insert(std::make_pair(e, i));
+    }
 }
 
 template <class T>
-- 
2.43.0


From 3d0d6087b0125c21d39cb3e3852b068f59d7a35b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:18:26 +0000
Subject: [PATCH 14/33] fix: indexes were written as floating point numbers,
 losing digits from one million on

---
 delynoi/src/models/basic/IndexSegment.cpp                | 2 +-
 delynoi/src/models/neighbourhood/EdgeData.cpp            | 2 +-
 delynoi/src/models/neighbourhood/NeighboursBySegment.cpp | 2 +-
 delynoi/src/models/polygon/Polygon.cpp                   | 4 ++--
 4 files changed, 5 insertions(+), 5 deletions(-)

diff --git a/delynoi/src/models/basic/IndexSegment.cpp b/delynoi/src/models/basic/IndexSegment.cpp
index dfbadcd..d2cd37f 100644
--- a/delynoi/src/models/basic/IndexSegment.cpp
+++ b/delynoi/src/models/basic/IndexSegment.cpp
@@ -53,7 +53,7 @@ bool IndexSegment::isCCW(const std::vector<Point>& points, Point center) {
 }
 
 std::string IndexSegment::getString() const {
-    return utilities::toString<double>(this->getFirst()) + " " + utilities::toString<double>(this->getSecond());
+    return utilities::toString<int>(this->getFirst()) + " " + utilities::toString<int>(this->getSecond());
 }
 
 bool IndexSegment::operator==(const IndexSegment& other) const {
diff --git a/delynoi/src/models/neighbourhood/EdgeData.cpp b/delynoi/src/models/neighbourhood/EdgeData.cpp
index a52a3f3..45a86a9 100644
--- a/delynoi/src/models/neighbourhood/EdgeData.cpp
+++ b/delynoi/src/models/neighbourhood/EdgeData.cpp
@@ -17,7 +17,7 @@ void EdgeData::setTriangle(int t) {
 }
 
 std::string EdgeData::getString() {
-    return utilities::toString<double>(this->p1) + " " + utilities::toString<double>(this->p2);
+    return utilities::toString<int>(this->p1) + " " + utilities::toString<int>(this->p2);
 }
 
 bool EdgeData::operator==(const EdgeData &other) const {
diff --git a/delynoi/src/models/neighbourhood/NeighboursBySegment.cpp b/delynoi/src/models/neighbourhood/NeighboursBySegment.cpp
index b9ada00..dcd4275 100644
--- a/delynoi/src/models/neighbourhood/NeighboursBySegment.cpp
+++ b/delynoi/src/models/neighbourhood/NeighboursBySegment.cpp
@@ -29,7 +29,7 @@ int NeighboursBySegment::getSecond() const{
 }
 
 std::string NeighboursBySegment::getString() const {
-    return utilities::toString<double>(this->n1) + " " + utilities::toString<double>(this->n2);
+    return utilities::toString<int>(this->n1) + " " + utilities::toString<int>(this->n2);
 }
 
 bool NeighboursBySegment::operator==(const NeighboursBySegment &other) const{
diff --git a/delynoi/src/models/polygon/Polygon.cpp b/delynoi/src/models/polygon/Polygon.cpp
index b3dbd6b..d52842d 100644
--- a/delynoi/src/models/polygon/Polygon.cpp
+++ b/delynoi/src/models/polygon/Polygon.cpp
@@ -239,10 +239,10 @@ bool Polygon::operator==(const Polygon &other) const{
 }
 
 std::string Polygon::getString() {
-    std::string base = utilities::toString<double>(this->points.size());
+    std::string base = utilities::toString<int>(this->points.size());
 
     for(int i=0;i<this->points.size();i++){
-        base += " " + utilities::toString<double>(this->points[i]);
+        base += " " + utilities::toString<int>(this->points[i]);
     }
 
     return base;
-- 
2.43.0


From a5e943808c6ae49c0882c72e944e0b1fb3c30151 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:18:26 +0000
Subject: [PATCH 15/33] fix: coordinates were always written with six
 significant digits, whatever the configured precision

---
 delynoi/src/models/basic/Point.cpp | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/delynoi/src/models/basic/Point.cpp b/delynoi/src/models/basic/Point.cpp
index 0bea35e..3406a5f 100644
--- a/delynoi/src/models/basic/Point.cpp
+++ b/delynoi/src/models/basic/Point.cpp
@@ -26,7 +26,10 @@ double Point::getY() const{
 }
 
 std::string Point::getString() const{
-    return utilities::toString<double>(this->getX()) + " " + utilities::toString<double>(this->getY());
+    int precision = DelynoiConfig::instance()->getPrecision();
+
+    return utilities::toStringWithPrecision(this->getX(), precision) + " " +
+           utilities::toStringWithPrecision(this->getY(), precision);
 }
 
 double Point::squareNorm() {
-- 
2.43.0


From 2c00bd44c0e4161af2f2b29fd3e6e3b09cf7c19e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:18:26 +0000
Subject: [PATCH 16/33] fix: circles were not discretized with the configured
 number of points (endless loop above 360)

---
 delynoi/src/models/polygon/Circle.cpp | 8 +++-----
 1 file changed, 3 insertions(+), 5 deletions(-)

diff --git a/delynoi/src/models/polygon/Circle.cpp b/delynoi/src/models/polygon/Circle.cpp
index b4ba79f..20b413a 100644
--- a/delynoi/src/models/polygon/Circle.cpp
+++ b/delynoi/src/models/polygon/Circle.cpp
@@ -11,16 +11,14 @@ std::vector<Point> Circle::discretizeCircle() {
     DelynoiConfig* config = DelynoiConfig::instance();
 
     std::vector<Point> points;
-    double delta = 360 / config->getDiscretizationGrade();
+    int grade = config->getDiscretizationGrade();
 
-    double angle = 0;
-    while (angle < 360) {
+    for (int i = 0; i < grade; ++i) {
+        double angle = (360.0 * i) / grade;
         double x = center.getX() + radius * cos(utilities::radian(angle));
         double y = center.getY() + radius * sin(utilities::radian(angle));
 
         points.push_back(Point(x, y));
-
-        angle += delta;
     }
 
     return points;
-- 
2.43.0


From f0f8894f4783b7f24bc48b723f275a26dbd0b74a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:18:26 +0000
Subject: [PATCH 17/33] fix: Angle did not normalize negative angles

---
 delynoi/include/delynoi/models/basic/Angle.h | 8 ++------
 1 file changed, 2 insertions(+), 6 deletions(-)

diff --git a/delynoi/include/delynoi/models/basic/Angle.h b/delynoi/include/delynoi/models/basic/Angle.h
index 4ce110f..3d2446c 100644
--- a/delynoi/include/delynoi/models/basic/Angle.h
+++ b/delynoi/include/delynoi/models/basic/Angle.h
@@ -17,12 +17,8 @@ struct Angle{
      * Constructor. Takes an angle value and obtains the equivalent between 0 and 180.
      */
     Angle(double a){
-        a = a - 360.0*int(a/360);
-        if(a>=0 && a<180) {
-            angle = a;
-        }else{
-            angle = a - 180;
-        }
+        a = a - 180.0*std::floor(a/180);
+        angle = a<180? a : 0;
     }
 
     /*
-- 
2.43.0


From 1efe700fdf7610f806bb0e1bb6ba8b134079dae1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:18:55 +0000
Subject: [PATCH 18/33] fix: a grid with a single row or column generated NaN
 points

---
 delynoi/src/models/generator/PointGenerator.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/delynoi/src/models/generator/PointGenerator.cpp b/delynoi/src/models/generator/PointGenerator.cpp
index 1ec7cc2..765084f 100644
--- a/delynoi/src/models/generator/PointGenerator.cpp
+++ b/delynoi/src/models/generator/PointGenerator.cpp
@@ -25,8 +25,8 @@ PointGenerator::PointGenerator(Functor *l, functions::independent_variable varia
 }
 
 void PointGenerator::generate(std::vector <Point> &vector, BoundingBox box, int nX, int nY) {
-    double dX = box.getWidth()/(nX-1);
-    double dY = box.getHeight()/(nY-1);
+    double dX = nX>1? box.getWidth()/(nX-1) : 0;
+    double dY = nY>1? box.getHeight()/(nY-1) : 0;
 
     for(int i = 0; i<nY; i++){
         for(int j = 0; j<nX; j++){
-- 
2.43.0


From 3475aa13a03593e621cc37681f47433d7a96b457 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:18:55 +0000
Subject: [PATCH 19/33] fix: noise::random_integer_noise was declared but never
 defined

---
 delynoi/src/models/generator/noise/noise.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/delynoi/src/models/generator/noise/noise.cpp b/delynoi/src/models/generator/noise/noise.cpp
index ecdcb56..72623fd 100644
--- a/delynoi/src/models/generator/noise/noise.cpp
+++ b/delynoi/src/models/generator/noise/noise.cpp
@@ -7,7 +7,7 @@ namespace noise{
         return new RandomDoubleNoise(f, min, max);
     }
 
-    Functor* random_integer_noise(Functor* f, int min, int max){
+    Functor* random_integer_noise(Functor* f, double min, double max){
         return new RandomIntegerNoise(f, min, max);
     }
 }
-- 
2.43.0


From 7e951f3e36cf30592482ac9af3fc1610df73c7fb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:18:55 +0000
Subject: [PATCH 20/33] fix: geometry_functions::collinear for segments was
 declared but never defined

---
 delynoi/include/delynoi/utilities/geometryFunctions.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/delynoi/include/delynoi/utilities/geometryFunctions.h b/delynoi/include/delynoi/utilities/geometryFunctions.h
index 1c820be..9527508 100644
--- a/delynoi/include/delynoi/utilities/geometryFunctions.h
+++ b/delynoi/include/delynoi/utilities/geometryFunctions.h
@@ -25,7 +25,7 @@ namespace geometry_functions{
      * @param seg1 seg2 segments to test
      * @return are the segments collinear or not
      */
-    extern bool collinear(PointSegment& seg1, PointSegment& seg2);
+    extern bool collinear(PointSegment seg1, PointSegment seg2);
 
     /* Calculates the area of a triangle defined by three points
      * @param p1 p2 origin points that define an area
-- 
2.43.0


From 8900dd62a3e432db255a1e9f29e9fb7663302b11 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:18:55 +0000
Subject: [PATCH 21/33] fix: map_utils::GetValues returned the type of the key

---
 lib/utilities/include/utilities/maputils.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lib/utilities/include/utilities/maputils.h b/lib/utilities/include/utilities/maputils.h
index 2ddc121..0cf9236 100644
--- a/lib/utilities/include/utilities/maputils.h
+++ b/lib/utilities/include/utilities/maputils.h
@@ -11,7 +11,7 @@ namespace map_utils{
 
     struct GetValues {
         template <typename T>
-        typename T::first_type operator()(T keyValuePair) const {
+        typename T::second_type operator()(T keyValuePair) const {
             return keyValuePair.second;
         }
     };
-- 
2.43.0


From 0bc613005fb141d2276ae1f8821e156ce866802e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:18:55 +0000
Subject: [PATCH 22/33] fix: malformed seed or mesh files were read out of
 bounds

---
 delynoi/include/delynoi/models/Mesh.h | 12 +++++++++++-
 delynoi/src/models/Region.cpp         |  4 ++++
 2 files changed, 15 insertions(+), 1 deletion(-)

diff --git a/delynoi/include/delynoi/models/Mesh.h b/delynoi/include/delynoi/models/Mesh.h
index 4bd46dd..51e0464 100644
--- a/delynoi/include/delynoi/models/Mesh.h
+++ b/delynoi/include/delynoi/models/Mesh.h
@@ -173,6 +173,10 @@ void Mesh<T>::createFromStream(std::ifstream &infile, int startIndex) {
         std::getline(infile, line);
         std::vector<std::string> splittedLine = utilities::splitBySpaces(line);
 
+        if(splittedLine.size()<2){
+            throw std::runtime_error("Invalid mesh file. Expected two coordinates per point.");
+        }
+
         Point newPoint(std::atof(splittedLine[0].c_str()), std::atof(splittedLine[1].c_str()));
         this->points.push_back(newPoint);
     }
@@ -186,7 +190,13 @@ void Mesh<T>::createFromStream(std::ifstream &infile, int startIndex) {
 
         std::vector<int> polygonPoints;
         for (int j = 1; j < splittedLine.size(); ++j) {
-            polygonPoints.push_back(std::atoi(splittedLine[j].c_str()) - startIndex);
+            int index = std::atoi(splittedLine[j].c_str()) - startIndex;
+
+            if(index<0 || index>=numberMeshPoints){
+                throw std::runtime_error("Invalid mesh file. Polygon refers to a point that does not exist.");
+            }
+
+            polygonPoints.push_back(index);
         }
 
         T newPolygon(polygonPoints, this->points.getList());
diff --git a/delynoi/src/models/Region.cpp b/delynoi/src/models/Region.cpp
index 7702010..300371a 100644
--- a/delynoi/src/models/Region.cpp
+++ b/delynoi/src/models/Region.cpp
@@ -114,6 +114,10 @@ void Region::addSeedsFromFile(std::string fileName) {
         std::getline(infile, line);
         std::vector<std::string> splittedLine = utilities::splitBySpaces(line);
 
+        if(splittedLine.size()<2){
+            throw std::runtime_error("Invalid seed points file. Expected two coordinates per point.");
+        }
+
         Point newPoint(std::atof(splittedLine[0].c_str()), std::atof(splittedLine[1].c_str()));
         this->seedPoints.push_back(newPoint);
     }
-- 
2.43.0


From c9e83cf69765b8d63d8a341656ee61761bb90b60 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:18:55 +0000
Subject: [PATCH 23/33] fix: a mesh file with repeated points shifted the point
 indexes of its polygons

---
 delynoi/include/delynoi/models/Mesh.h | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/delynoi/include/delynoi/models/Mesh.h b/delynoi/include/delynoi/models/Mesh.h
index 51e0464..7bf733d 100644
--- a/delynoi/include/delynoi/models/Mesh.h
+++ b/delynoi/include/delynoi/models/Mesh.h
@@ -169,6 +169,7 @@ void Mesh<T>::createFromStream(std::ifstream &infile, int startIndex) {
     std::string line;
     std::getline(infile, line);
     int numberMeshPoints = std::atoi(line.c_str());
+    std::vector<int> pointIndex;
     for (int i = 0; i < numberMeshPoints; ++i) {
         std::getline(infile, line);
         std::vector<std::string> splittedLine = utilities::splitBySpaces(line);
@@ -178,7 +179,7 @@ void Mesh<T>::createFromStream(std::ifstream &infile, int startIndex) {
         }
 
         Point newPoint(std::atof(splittedLine[0].c_str()), std::atof(splittedLine[1].c_str()));
-        this->points.push_back(newPoint);
+        pointIndex.push_back(this->points.push_back(newPoint));
     }
 
     std::getline(infile, line);
@@ -196,7 +197,7 @@ void Mesh<T>::createFromStream(std::ifstream &infile, int startIndex) {
                 throw std::runtime_error("Invalid mesh file. Polygon refers to a point that does not exist.");
             }
 
-            polygonPoints.push_back(index);
+            polygonPoints.push_back(pointIndex[index]);
         }
 
         T newPolygon(polygonPoints, this->points.getList());
-- 
2.43.0


From f966ff3658fb423e0dce828d3769ced4a0bae5e2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:18:56 +0000
Subject: [PATCH 24/33] fix: meshes read from a file had no point
 neighbourhood, and wrong edge ones when the mesh was not empty

---
 delynoi/include/delynoi/models/Mesh.h | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/delynoi/include/delynoi/models/Mesh.h b/delynoi/include/delynoi/models/Mesh.h
index 7bf733d..0ac6f4c 100644
--- a/delynoi/include/delynoi/models/Mesh.h
+++ b/delynoi/include/delynoi/models/Mesh.h
@@ -201,12 +201,17 @@ void Mesh<T>::createFromStream(std::ifstream &infile, int startIndex) {
         }
 
         T newPolygon(polygonPoints, this->points.getList());
+        int polygonIndex = this->polygons.size();
         this->polygons.push_back(newPolygon);
         std::vector<IndexSegment> segments;
         newPolygon.getSegments(segments);
 
         for (IndexSegment s: segments){
-            this->edges->insert(s, i);
+            this->edges->insert(s, polygonIndex);
+        }
+
+        for (int v: polygonPoints){
+            this->pointMap->insert(this->points[v], polygonIndex);
         }
     }
 }
-- 
2.43.0


From d8f21bdeffe629ce99ac3ca921e83bd9107f8376 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:18:56 +0000
Subject: [PATCH 25/33] fix: Polygon::isConvex accepted non convex polygons
 whose first three vertices are collinear

---
 delynoi/src/models/polygon/Polygon.cpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/delynoi/src/models/polygon/Polygon.cpp b/delynoi/src/models/polygon/Polygon.cpp
index d52842d..75f3ba8 100644
--- a/delynoi/src/models/polygon/Polygon.cpp
+++ b/delynoi/src/models/polygon/Polygon.cpp
@@ -195,6 +195,10 @@ bool Polygon::isConvex(std::vector<Point>& p) {
     for(int i=1;i<n; i++){
         double newResult = delynoi_utilities::orientation(p[this->points[i]],p[this->points[(i+1)%n]],p[this->points[(i+2)%n]]);
 
+        if(determinant==0){
+            determinant = newResult;
+        }
+
         if(determinant*newResult<0){
             return false;
         }
-- 
2.43.0


From 1ad514c6bb824604f4d03bf8df0ab449997b2054 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:18:56 +0000
Subject: [PATCH 26/33] fix: ear clipping cut triangles outside of the polygon
 at reflex vertices

---
 delynoi/src/triangulation/EarTriangulationGenerator.cpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/delynoi/src/triangulation/EarTriangulationGenerator.cpp b/delynoi/src/triangulation/EarTriangulationGenerator.cpp
index fc73a4e..647edd7 100644
--- a/delynoi/src/triangulation/EarTriangulationGenerator.cpp
+++ b/delynoi/src/triangulation/EarTriangulationGenerator.cpp
@@ -18,7 +18,8 @@ Triangle EarTriangulationGenerator::getEar(std::vector<Point>& points, std::vect
         bool test = false;
         Triangle t ({pointList[(size+i-1)%size], pointList[i%size], pointList[(size+i+1)%size]}, points);
 
-        if(t.isConvex(points)){
+        if(delynoi_utilities::orientation(points[pointList[(size+i-1)%size]], points[pointList[i%size]],
+                                          points[pointList[(size+i+1)%size]])>0){
             for(int j=0;j<size;j++){
                 if(!t.isVertex(pointList[j]) && t.containsPoint(points, points[pointList[j]])){
                     test = true;
@@ -39,6 +40,7 @@ Triangle EarTriangulationGenerator::getEar(std::vector<Point>& points, std::vect
 
 std::vector<Triangle> EarTriangulationGenerator::triangulate(Polygon p, std::vector<Point>& points) {
     std::vector<Triangle> triangles;
+    p.fixCCW(points);
     std::vector<int> pointList = p.getPoints();
 
     while(pointList.size()>=3){
-- 
2.43.0


From 87e3cdab6fc92231db5b8f1f47d43a05be265433 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:19:36 +0000
Subject: [PATCH 27/33] fix: fields left uninitialized by default constructors

---
 delynoi/include/delynoi/models/generator/PointGenerator.h   | 6 +++---
 .../delynoi/models/neighbourhood/NeighboursBySegment.h      | 2 +-
 delynoi/include/delynoi/models/polygon/Polygon.h            | 4 ++--
 delynoi/include/delynoi/models/polygon/Triangle.h           | 2 +-
 delynoi/src/models/basic/IndexSegment.cpp                   | 4 +++-
 delynoi/src/models/basic/Segment.cpp                        | 2 +-
 delynoi/src/models/generator/functions/FunctorClasses.cpp   | 2 +-
 lib/utilities/include/utilities/Pair.h                      | 2 +-
 8 files changed, 13 insertions(+), 11 deletions(-)

diff --git a/delynoi/include/delynoi/models/generator/PointGenerator.h b/delynoi/include/delynoi/models/generator/PointGenerator.h
index 4355fda..8bd90a2 100644
--- a/delynoi/include/delynoi/models/generator/PointGenerator.h
+++ b/delynoi/include/delynoi/models/generator/PointGenerator.h
@@ -15,15 +15,15 @@ private:
     /*
      * Function classes that will be used to generate the points values
      */
-    Functor* lX;
-    Functor* lY;
+    Functor* lX = nullptr;
+    Functor* lY = nullptr;
 
     /*
      * Variable defining if one or the two function classes are to be used, and the order of the parameters. The variable
      * member can be either x (x is the independent value and y is obtained as f(x)), y (y is the independent value, and
      * x = f(y)), or both (both x and y are obtained as f(x) and f(y))
      */
-    functions::independent_variable variable;
+    functions::independent_variable variable = functions::independent_variable::both;
 
     /*
      * Given two coordinates, generates their point using the Function classes.
diff --git a/delynoi/include/delynoi/models/neighbourhood/NeighboursBySegment.h b/delynoi/include/delynoi/models/neighbourhood/NeighboursBySegment.h
index ddc7c67..8da0638 100644
--- a/delynoi/include/delynoi/models/neighbourhood/NeighboursBySegment.h
+++ b/delynoi/include/delynoi/models/neighbourhood/NeighboursBySegment.h
@@ -13,7 +13,7 @@ private:
     /*
      * Indexes of the polygons that contain a segment
      */
-    int n1;
+    int n1 = -1;
     int n2 = -1;
 public:
     /*
diff --git a/delynoi/include/delynoi/models/polygon/Polygon.h b/delynoi/include/delynoi/models/polygon/Polygon.h
index fc21099..fe07485 100644
--- a/delynoi/include/delynoi/models/polygon/Polygon.h
+++ b/delynoi/include/delynoi/models/polygon/Polygon.h
@@ -27,8 +27,8 @@ protected:
     /*
      * Pre-calculated polygon properties
      */
-    double diameter;
-    double area;
+    double diameter = -1;
+    double area = -1;
     Point centroid;
 
     /* Calculates the polygon diameter
diff --git a/delynoi/include/delynoi/models/polygon/Triangle.h b/delynoi/include/delynoi/models/polygon/Triangle.h
index 649c9f7..3ccc826 100644
--- a/delynoi/include/delynoi/models/polygon/Triangle.h
+++ b/delynoi/include/delynoi/models/polygon/Triangle.h
@@ -16,7 +16,7 @@ private:
      */
     Point circumcenter;
 
-    int circumcenterIndex;
+    int circumcenterIndex = -1;
 
     /*
      * Calculates the circumcenter
diff --git a/delynoi/src/models/basic/IndexSegment.cpp b/delynoi/src/models/basic/IndexSegment.cpp
index d2cd37f..8818be6 100644
--- a/delynoi/src/models/basic/IndexSegment.cpp
+++ b/delynoi/src/models/basic/IndexSegment.cpp
@@ -11,7 +11,9 @@ IndexSegment::IndexSegment(const IndexSegment &other) {
     this->hash = utilities::hash32(this->p1) + utilities::hash32(this->p2);
 }
 
-IndexSegment::IndexSegment() : Segment<int>(){}
+IndexSegment::IndexSegment() : Segment<int>(){
+    this->hash = utilities::hash32(this->p1) + utilities::hash32(this->p2);
+}
 
 bool IndexSegment::contains(const std::vector<Point> &p, Point point) {
     return Segment::contains(point,p[this->p1],p[this->p2]);
diff --git a/delynoi/src/models/basic/Segment.cpp b/delynoi/src/models/basic/Segment.cpp
index 8f479a7..d9b79a9 100644
--- a/delynoi/src/models/basic/Segment.cpp
+++ b/delynoi/src/models/basic/Segment.cpp
@@ -7,7 +7,7 @@ Segment<T>::Segment(T p1, T p2) {
 }
 
 template <class T>
-Segment<T>::Segment() {}
+Segment<T>::Segment() : p1(), p2() {}
 
 template <class T>
 T Segment<T>::getFirst() const{
diff --git a/delynoi/src/models/generator/functions/FunctorClasses.cpp b/delynoi/src/models/generator/functions/FunctorClasses.cpp
index 7c7b12b..1b04870 100644
--- a/delynoi/src/models/generator/functions/FunctorClasses.cpp
+++ b/delynoi/src/models/generator/functions/FunctorClasses.cpp
@@ -75,7 +75,7 @@ public:
 class ConstantAlternating: public Functor{
 private:
     UniqueList<double> visitedPlaces;
-    double delta;
+    double delta = 0;
     bool alternating = false;
 public:
     ConstantAlternating(){}
diff --git a/lib/utilities/include/utilities/Pair.h b/lib/utilities/include/utilities/Pair.h
index 4825306..1b0ba8f 100644
--- a/lib/utilities/include/utilities/Pair.h
+++ b/lib/utilities/include/utilities/Pair.h
@@ -31,7 +31,7 @@ Pair<T>::Pair(const Pair &other) {
 }
 
 template <typename T>
-Pair<T>::Pair() {}
+Pair<T>::Pair() : first(), second() {}
 
 template <typename T>
 bool Pair<T>::operator==(const Pair &other) const{
-- 
2.43.0


From 22273350b3fdfa682c6b18b67ae30ebaac09bdfc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:19:36 +0000
Subject: [PATCH 28/33] fix: looking up the neighbours of an unknown point or
 segment added it to the mesh

---
 delynoi/src/models/neighbourhood/PointMap.cpp   | 2 +-
 delynoi/src/models/neighbourhood/SegmentMap.cpp | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/delynoi/src/models/neighbourhood/PointMap.cpp b/delynoi/src/models/neighbourhood/PointMap.cpp
index f216940..4b903e7 100644
--- a/delynoi/src/models/neighbourhood/PointMap.cpp
+++ b/delynoi/src/models/neighbourhood/PointMap.cpp
@@ -27,7 +27,7 @@ void PointMap::insert(Point &p, std::vector<int> &neighbours) {
 }
 
 NeighboursByPoint &PointMap::get(Point p) {
-    return this->map[p];
+    return this->map.at(p);
 }
 
 std::map<Point, NeighboursByPoint> &PointMap::getMap() {
diff --git a/delynoi/src/models/neighbourhood/SegmentMap.cpp b/delynoi/src/models/neighbourhood/SegmentMap.cpp
index 418b518..9e364e9 100644
--- a/delynoi/src/models/neighbourhood/SegmentMap.cpp
+++ b/delynoi/src/models/neighbourhood/SegmentMap.cpp
@@ -19,7 +19,7 @@ void SegmentMap::insert(IndexSegment s, NeighboursBySegment n) {
 }
 
 NeighboursBySegment& SegmentMap::get(IndexSegment s) {
-    return map[s];
+    return map.at(s);
 }
 
 std::unordered_map<IndexSegment,NeighboursBySegment, SegmentHasher>& SegmentMap::getMap() {
-- 
2.43.0


From e039d8a9f940eebe2402b7b8b3eb3a5de79283d7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:19:36 +0000
Subject: [PATCH 29/33] fix: polygons with different vertices and the same hash
 were considered equal

---
 delynoi/src/models/polygon/Polygon.cpp | 22 ++++++++++++++++++++--
 1 file changed, 20 insertions(+), 2 deletions(-)

diff --git a/delynoi/src/models/polygon/Polygon.cpp b/delynoi/src/models/polygon/Polygon.cpp
index 75f3ba8..7360eee 100644
--- a/delynoi/src/models/polygon/Polygon.cpp
+++ b/delynoi/src/models/polygon/Polygon.cpp
@@ -239,7 +239,16 @@ bool Polygon::isClockwise(std::vector<Point> &p) {
 }
 
 bool Polygon::operator==(const Polygon &other) const{
-    return this->hash==other.hash;
+    if(this->hash!=other.hash){
+        return false;
+    }
+
+    std::vector<int> thisPoints = this->points;
+    std::vector<int> otherPoints = other.points;
+    std::sort(thisPoints.begin(), thisPoints.end());
+    std::sort(otherPoints.begin(), otherPoints.end());
+
+    return thisPoints==otherPoints;
 }
 
 std::string Polygon::getString() {
@@ -284,7 +293,16 @@ std::vector<Point> Polygon::getPoints(std::vector<Point> &p) {
 }
 
 bool Polygon::operator<(const Polygon &other) const {
-    return this->hash<other.hash;
+    if(this->hash!=other.hash){
+        return this->hash<other.hash;
+    }
+
+    std::vector<int> thisPoints = this->points;
+    std::vector<int> otherPoints = other.points;
+    std::sort(thisPoints.begin(), thisPoints.end());
+    std::sort(otherPoints.begin(), otherPoints.end());
+
+    return thisPoints<otherPoints;
 }
 
 bool Polygon::isSelfIntersecting(std::vector<Point>& points) {
-- 
2.43.0


From 9048e48d325bca6f0842748e4bab9438f809c827 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:19:36 +0000
Subject: [PATCH 30/33] fix: IndexSegment order distinguished segments its
 equality considers the same

---
 delynoi/src/models/basic/IndexSegment.cpp | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/delynoi/src/models/basic/IndexSegment.cpp b/delynoi/src/models/basic/IndexSegment.cpp
index 8818be6..d6c9a1d 100644
--- a/delynoi/src/models/basic/IndexSegment.cpp
+++ b/delynoi/src/models/basic/IndexSegment.cpp
@@ -64,11 +64,14 @@ bool IndexSegment::operator==(const IndexSegment& other) const {
 }
 
 bool IndexSegment::operator<(const IndexSegment &other) const {
-    if(this->p1==other.p1){
-        return this->p2<other.p2;
+    int thisMin = std::min(this->p1, this->p2), thisMax = std::max(this->p1, this->p2);
+    int otherMin = std::min(other.p1, other.p2), otherMax = std::max(other.p1, other.p2);
+
+    if(thisMin==otherMin){
+        return thisMax<otherMax;
     }
 
-    return this->p1<other.p1;
+    return thisMin<otherMin;
 }
 
 double IndexSegment::length(const std::vector<Point>& points) {
-- 
2.43.0


From cb0d8484226e1f8b18ed788a1fb28e993813ed20 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:20:21 +0000
Subject: [PATCH 31/33] fix: polygons with repeated consecutive vertices were
 reported as self intersecting

---
 delynoi/src/models/polygon/Polygon.cpp | 19 +++++++++++++++++--
 1 file changed, 17 insertions(+), 2 deletions(-)

diff --git a/delynoi/src/models/polygon/Polygon.cpp b/delynoi/src/models/polygon/Polygon.cpp
index 7360eee..fd976f2 100644
--- a/delynoi/src/models/polygon/Polygon.cpp
+++ b/delynoi/src/models/polygon/Polygon.cpp
@@ -306,9 +306,24 @@ bool Polygon::operator<(const Polygon &other) const {
 }
 
 bool Polygon::isSelfIntersecting(std::vector<Point>& points) {
+    //Repeated consecutive vertices do not make a polygon self intersecting
+    std::vector<int> vertices;
+    for (int v: this->points){
+        if(vertices.empty() || !(points[v]==points[vertices.back()])){
+            vertices.push_back(v);
+        }
+    }
+
+    while(vertices.size()>1 && points[vertices.back()]==points[vertices.front()]){
+        vertices.pop_back();
+    }
+
     std::vector<IndexSegment> segments;
-    this->getSegments(segments);
-    int n = segments.size();
+    int n = vertices.size();
+    for (int i = 0; i < n; ++i) {
+        segments.push_back(IndexSegment(vertices[i], vertices[(i+1)%n]));
+    }
+
     Point intersection;
 
     for (int i = 0; i < n; ++i) {
-- 
2.43.0


From 75b2ddc016e84152c59bd68c21597a88e679fac4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:17:10 +0000
Subject: [PATCH 32/33] fix: alternating batches mixed displaced and plain
 points from the third batch on

---
 delynoi/src/models/generator/functions/FunctorClasses.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/delynoi/src/models/generator/functions/FunctorClasses.cpp b/delynoi/src/models/generator/functions/FunctorClasses.cpp
index 1b04870..d171232 100644
--- a/delynoi/src/models/generator/functions/FunctorClasses.cpp
+++ b/delynoi/src/models/generator/functions/FunctorClasses.cpp
@@ -89,6 +89,7 @@ public:
         if(index<visitedPlaces.size()-1){
             alternating = !alternating;
             visitedPlaces.clear();
+            visitedPlaces.push_back(x);
         }
 
         if(alternating){
-- 
2.43.0


From 9f5efb48f97d2970c82dde10ee3f308ed0e39b38 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:50:26 +0000
Subject: [PATCH 33/33] fix: Delaunay triangulation of a polygon numbered its
 triangles by the triangulation's own points

---
 .../DelaunayTriangulationGenerator.cpp        | 22 ++++++++++++++++++-
 1 file changed, 21 insertions(+), 1 deletion(-)

diff --git a/delynoi/src/triangulation/DelaunayTriangulationGenerator.cpp b/delynoi/src/triangulation/DelaunayTriangulationGenerator.cpp
index 0c75bb6..02257c3 100644
--- a/delynoi/src/triangulation/DelaunayTriangulationGenerator.cpp
+++ b/delynoi/src/triangulation/DelaunayTriangulationGenerator.cpp
@@ -6,5 +6,25 @@ std::vector<Triangle> DelaunayTriangulationGenerator::triangulate(Polygon p, std
     TriangleDelaunayGenerator generator(points,r);
     Mesh<Triangle> triangulation = generator.getConstrainedDelaunayTriangulation();
 
-    return triangulation.getPolygons();
+    //The triangulation numbers its own points, the caller's triangles refer to the list that was given
+    std::vector<Triangle> triangles;
+
+    for (Triangle t: triangulation.getPolygons()) {
+        std::vector<int> trianglePoints;
+
+        for (int index: t.getPoints()) {
+            Point vertex = triangulation.getPoint(index);
+            int position = std::find(points.begin(), points.end(), vertex) - points.begin();
+
+            if(position == points.size()){
+                points.push_back(vertex);
+            }
+
+            trianglePoints.push_back(position);
+        }
+
+        triangles.push_back(Triangle(trianglePoints, points));
+    }
+
+    return triangles;
 }
-- 
2.43.0

