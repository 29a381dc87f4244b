S='delynoi/src/'; I='delynoi/include/delynoi/'
BUGS=[
dict(id='centre_index_after_push', property='C01', edits=[(S+'models/polygon/Triangle.cpp','    this->circumcenterIndex = circumcenters.size();\n    circumcenters.push_back(this->circumcenter);','    circumcenters.push_back(this->circumcenter);\n    this->circumcenterIndex = circumcenters.size();')],
 needs='a triangle built with a plain vector of centres', breaks='the index reported is one past the position of the centre',
 demo='''#include <delynoi/models/polygon/Triangle.h>
int main(){ std::vector<Point> p={Point(0,0),Point(4,0),Point(0,3)}, c={Point(9,9)}; Triangle t({0,1,2},p,c);
CHECK(t.getCircumcenterIndex()==1); CHECK(c.size()==2); return 0; }'''),
dict(id='centre_flat_triangle', property='C01', edits=[(S+'models/polygon/Triangle.cpp','    return Point(uX,uY);','    return std::abs(d)<1e-3? this->getAverage(p) : Point(uX,uY);')],
 needs='a thin or very small triangle (twice the doubled area below 1e-3)', breaks='the centre of small triangles is their average, which is not equidistant from the vertices',
 demo='''#include <delynoi/models/polygon/Triangle.h>
int main(){ std::vector<Point> p={Point(0,0),Point(0.01,0),Point(0,0.01)}; Triangle t({0,1,2},p); Point c=t.getCircumcenter();
CHECK(std::fabs(c.getX()-0.005)<1e-9 && std::fabs(c.getY()-0.005)<1e-9); return 0; }'''),
dict(id='convex_last_turn', property='C02', edits=[(S+'models/polygon/Polygon.cpp','    for(int i=1;i<n; i++){\n        double newResult','    for(int i=1;i<n-1; i++){\n        double newResult')],
 needs='a polygon whose only reflex vertex is the first one listed', breaks='the turn at the first vertex is never examined, so such polygons are reported convex',
 demo='''#include <delynoi/models/polygon/Polygon.h>
int main(){ std::vector<Point> p={Point(1,1),Point(5,0),Point(5,5),Point(0,5)}; Polygon q(p); std::vector<Point> p2={Point(4,1),Point(0,5),Point(0,0),Point(5,0),Point(5,5)};
 std::vector<Point> p3={Point(2,2),Point(0,4),Point(0,0),Point(4,0),Point(4,4)}; Polygon r(p3); CHECK(q.isConvex(p)); CHECK(!r.isConvex(p3)); return 0; }'''),
dict(id='longest_side_open_ring', property='C02', edits=[(S+'models/polygon/Polygon.cpp','    for (int i = 0; i < this->points.size(); ++i) {\n        double distance','    for (int i = 0; i + 1 < this->points.size(); ++i) {\n        double distance')],
 needs='a polygon whose longest side is the closing one', breaks='the closing side is not considered',
 demo='''#include <delynoi/models/polygon/Polygon.h>
int main(){ std::vector<Point> p={Point(0,0),Point(6,0),Point(6,8)}; Polygon q(p); CHECK(std::fabs(q.getMaxDistance(p)-10)<1e-9); return 0; }'''),
dict(id='centroid_uses_area_cache', property='C02', edits=[(S+'models/polygon/Polygon.cpp','    double A = this->signedArea(p);','    double A = std::abs(this->signedArea(p));')],
 needs='a polygon listed clockwise', breaks='the centroid of a clockwise polygon is mirrored through the origin',
 demo='''#include <delynoi/models/polygon/Polygon.h>
int main(){ std::vector<Point> p={Point(0,0),Point(0,2),Point(2,2),Point(2,0)}; Polygon q(p); Point c=q.getCentroid(p); CHECK(std::fabs(c.getX()-1)<1e-9 && std::fabs(c.getY()-1)<1e-9); return 0; }'''),
dict(id='intersect_far_end', property='C03', edits=[(S+'models/basic/Segment.cpp','if (s >= (0-tolerance) && s <= (1+tolerance) && t >= (0-tolerance) && t <= (1+tolerance)){','if (s >= (0-tolerance) && s <= (1+tolerance) && t >= (0-tolerance) && t < (1-tolerance)){')],
 needs='two segments that touch exactly at the second end of the first one', breaks='contact at the far end is no longer an intersection',
 demo='''#include <delynoi/models/basic/IndexSegment.h>
int main(){ std::vector<Point> p={Point(0,0),Point(2,0),Point(2,-1),Point(2,1)}; Point w; CHECK(IndexSegment(0,1).intersection(p,IndexSegment(2,3),w)); CHECK(IndexSegment(1,0).intersection(p,IndexSegment(2,3),w)); return 0; }'''),
dict(id='contains_lost_tolerance', property='C03', edits=[(S+'models/basic/Segment.cpp','(point.getX()<=p2.getX() || std::abs(point.getX()-p2.getX())<config->getTolerance())) ||','point.getX()<=p2.getX()) ||')],
 needs='a point a rounding error to the right of the end of a segment listed left to right', breaks='the tolerance is applied at every end but this one',
 demo='''#include <delynoi/models/basic/PointSegment.h>
int main(){ double t=DelynoiConfig::instance()->getTolerance(); CHECK(PointSegment(Point(0,0),Point(1,0)).contains(Point(1+t/2,0))); CHECK(PointSegment(Point(1,0),Point(0,0)).contains(Point(1+t/2,0))); return 0; }'''),
dict(id='neighbours_hash_direction', property='C06', edits=[(I+'models/neighbourhood/SegmentMap.h','utilities::hash32(k.getFirst())','31*utilities::hash32(k.getFirst())')],
 needs='the same pair of neighbours recorded in opposite directions', breaks='records that compare equal hash differently',
 demo='''#include <delynoi/models/neighbourhood/SegmentMap.h>
int main(){ NeighboursHasher h; CHECK(h(NeighboursBySegment(3,8))==h(NeighboursBySegment(8,3))); return 0; }'''),
dict(id='polygon_fix_hash', property='C06', edits=[(S+'models/polygon/Polygon.cpp','        hash+= utilities::hash32(points[i]);','        hash = 31*hash + utilities::hash32(points[i]);')],
 needs='the same cell listed from a different first vertex', breaks='polygons with the same vertices in another rotation are different',
 demo='''#include <delynoi/models/polygon/Polygon.h>
int main(){ std::vector<Point> p={Point(0,0),Point(1,0),Point(1,1),Point(0,1)}; std::vector<int> a={0,1,2,3}, b={1,2,3,0}; CHECK(Polygon(a,p)==Polygon(b,p)); return 0; }'''),
dict(id='key_equality_direction', property='C06', edits=[(I+'voronoi/structures/mapdata.h','','')], needs='', breaks='', demo=''),
dict(id='inside_level_with_vertex', property='C07', edits=[(S+'models/polygon/Polygon.cpp','|| pJ.getY()<=point.getY() && pI.getY()>point.getY()) {','|| pJ.getY()<point.getY() && pI.getY()>point.getY()) {')],
 needs='a point exactly level with a vertex', breaks='the crossing through that vertex is counted on one side only',
 demo='''#include <delynoi/models/polygon/Polygon.h>
int main(){ std::vector<Point> p={Point(0,0),Point(4,2),Point(0,4),Point(-4,2)}; Polygon q(p); CHECK(q.containsPoint(p,Point(1,2))); CHECK(!q.containsPoint(p,Point(9,2))); CHECK(!q.containsPoint(p,Point(-9,2))); std::reverse(p.begin(),p.end()); Polygon r(p); CHECK(r.containsPoint(p,Point(1,2))); CHECK(!r.containsPoint(p,Point(9,2))); return 0; }'''),
dict(id='crossing_last_edge', property='C08', edits=[(S+'models/polygon/Polygon.cpp','        for (int j = 0; j < n; ++j) {\n            if(i==j','        for (int j = i; j < n-1; ++j) {\n            if(i==j')],
 needs='a polygon whose closing edge is one of the crossing edges', breaks='crossings with the closing edge go unnoticed',
 demo='''#include <delynoi/models/polygon/Polygon.h>
int main(){ std::vector<Point> b={Point(2,2),Point(5,2),Point(5,0),Point(0,0),Point(0,-2),Point(2,-2)}; Polygon q; bool u=false; try{ q.mutate(b); }catch(std::invalid_argument&){ u=true; } CHECK(u); return 0; }'''),
]
BUGS=[b for b in BUGS if b['demo']]
