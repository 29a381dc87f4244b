// @ C05
// USE contract::Polygon__containsPoint contract::Hole__containsPoint contract::Polygon__isSelfIntersecting opq::inRing opq::crossing
#include "contracts.h"
#include <delynoi/models/Region.h>
#include <delynoi/models/polygon/Triangle.h>
#include <delynoi/models/hole/CircularHole.h>
// questions about an object change neither the object nor the points they are asked about
typedef std::vector<Point> Ps;
void lhs_q_signed(Polygon& q, Ps& p){ q.signedArea(p); }
void rhs_q_signed(Polygon& q, Ps& p){}
std::vector<int> lhs_q_area(Polygon q, Ps& p){ q.getArea(p); return q.getPoints(); }
std::vector<int> rhs_q_area(Polygon q, Ps& p){ return q.getPoints(); }
std::vector<int> lhs_q_centroid(Polygon q, Ps& p){ q.getCentroid(p); return q.getPoints(); }
std::vector<int> rhs_q_centroid(Polygon q, Ps& p){ return q.getPoints(); }
std::vector<int> lhs_q_diameter(Polygon q, Ps& p){ q.getDiameter(p); return q.getPoints(); }
std::vector<int> rhs_q_diameter(Polygon q, Ps& p){ return q.getPoints(); }
void lhs_q_cw(Polygon& q, Ps& p){ q.isClockwise(p); }
void rhs_q_cw(Polygon& q, Ps& p){}
void lhs_q_convex(Polygon& q, Ps& p){ q.isConvex(p); }
void rhs_q_convex(Polygon& q, Ps& p){}
void lhs_q_average(Polygon& q, Ps& p){ q.getAverage(p); }
void rhs_q_average(Polygon& q, Ps& p){}
void lhs_q_longest(Polygon& q, Ps& p){ q.getMaxDistance(p); }
void rhs_q_longest(Polygon& q, Ps& p){}
void lhs_q_list(Polygon& q, Ps& p){ q.getPoints(p); }
void rhs_q_list(Polygon& q, Ps& p){}
void lhs_q_string(Polygon& q){ q.getString(); }
void rhs_q_string(Polygon& q){}
void lhs_q_vertex(Polygon& q, int i){ q.isVertex(i); }
void rhs_q_vertex(Polygon& q, int i){}
void lhs_q_edge(Polygon& q, IndexSegment& s){ q.containsEdge(s); }
void rhs_q_edge(Polygon& q, IndexSegment& s){}
void lhs_q_edges(Polygon& q, std::vector<IndexSegment>& s){ q.getSegments(s); s.clear(); }
void rhs_q_edges(Polygon& q, std::vector<IndexSegment>& s){ s.clear(); }
void lhs_q_equal(Polygon& q, Polygon& r){ q == r; q < r; }
void rhs_q_equal(Polygon& q, Polygon& r){}
void lhs_q_fix(Polygon q, Ps& p){ q.fixCCW(p); }
void rhs_q_fix(Polygon q, Ps& p){}
void lhs_q_build(Ps& p){ Polygon q(p); }
void rhs_q_build(Ps& p){ if (opq::crossing(Polygon(p).getPoints(), p)) throw std::invalid_argument(""); }
void lhs_q_calipers(Ps& p){ Ps c = p; convex::rotatingCalipers(c); }
void rhs_q_calipers(Ps& p){}
// the same for regions
void lhs_q_rbox(Region& r){ r.getBox(); }
void rhs_q_rbox(Region& r){}
void lhs_q_rpoints(Region& r){ r.getRegionPoints(); }
void rhs_q_rpoints(Region& r){}
void lhs_q_rseeds(Region& r){ r.getSeedPoints(); }
void rhs_q_rseeds(Region& r){}
void lhs_q_rsegments(Region& r, std::vector<IndexSegment>& s){ r.getSegments(s); s.clear(); }
void rhs_q_rsegments(Region& r, std::vector<IndexSegment>& s){ s.clear(); }
void lhs_q_rcontains(Region& r, Point q){ r.containsPoint(q); }
void rhs_q_rcontains(Region& r, Point q){}
void lhs_q_hole(Hole& h, Point q){ h.containsPoint(q); h.getCenter(); h.getPoints(); }
void rhs_q_hole(Hole& h, Point q){}
// and for segments, boxes and points
void lhs_q_seg(IndexSegment& s, Ps& p, Point q, IndexSegment& o){ s.length(p); s.cartesianAngle(p); s.middlePoint(p); s.isCCW(p, q); s.getString(); s.isVertex(1); s == o; s < o; s.add(3); s.contains(p, o); }
void rhs_q_seg(IndexSegment& s, Ps& p, Point q, IndexSegment& o){}
void lhs_q_segIn(IndexSegment& s, Ps& p, Point q){ s.contains(p, q); }
void rhs_q_segIn(IndexSegment& s, Ps& p, Point q){}
void lhs_q_segX(IndexSegment& s, Ps& p, IndexSegment& o){ Point w; s.intersection(p, o, w); }
void rhs_q_segX(IndexSegment& s, Ps& p, IndexSegment& o){}
void lhs_q_pseg(PointSegment& s, PointSegment& o, Point q){ s.length(); s.cartesianAngle(); s.getString(); s.contains(q); s == o; }
void rhs_q_pseg(PointSegment& s, PointSegment& o, Point q){}
void lhs_q_box(BoundingBox& b, BoundingBox& c, Point q){ b.contains(q); b.getWidth(); b.getHeight(); b.xMin(); b.xMax(); b.yMin(); b.yMax(); b == c; b.getFirst(); b.getSecond(); }
void rhs_q_box(BoundingBox& b, BoundingBox& c, Point q){}
void lhs_q_point(Point& a, Point& b){ a == b; a < b; a - b; a.getString(); a.squareNorm(); a.isValid(); a.isInBoundary(); }
void rhs_q_point(Point& a, Point& b){}
void lhs_q_triangle(Triangle& t, EdgeData e){ t.thirdPoint(e); t.isNull(); t.getCircumcenter(); t.getCircumcenterIndex(); }
void rhs_q_triangle(Triangle& t, EdgeData e){}
// @ C09
// measures follow the current vertices, whatever was asked before
static double shoelace(const std::vector<int>& ix, const std::vector<Point>& p){
    double s = 0; int n = ix.size();
    for (int i=0;i<n;i++){ Point a = p[ix[i]], b = p[ix[(i+1)%n]]; s += (a.getX()*b.getY() - b.getX()*a.getY())/2; }
    return s;
}
double lhs_m_area(Ps p, Ps o){ assume(shoelace(Polygon(p).getPoints(), p) != -1); Polygon q(p); q.getArea(p); q.mutate(o); return q.getArea(o); }
double rhs_m_area(Ps p, Ps o){ assume(shoelace(Polygon(p).getPoints(), p) != -1); Polygon q(p); q.mutate(o); return Polygon(o).getArea(o); }
double lhs_m_areaTwice(Ps p){ Polygon q(p); q.getArea(p); return q.getArea(p); }
double rhs_m_areaTwice(Ps p){ return Polygon(p).getArea(p); }
double lhs_m_areaFix(Polygon q, Ps p){ q.area = -1; q.getArea(p); q.fixCCW(p); return q.getArea(p); }
double rhs_m_areaFix(Polygon q, Ps p){ q.fixCCW(p); return q.signedArea(p); }
double lhs_m_areaFixNew(Polygon q, Ps p){ q.area = -1; q.fixCCW(p); return q.getArea(p); }
double rhs_m_areaFixNew(Polygon q, Ps p){ q.fixCCW(p); return q.signedArea(p); }
double lhs_m_areaMutateNew(Polygon q, Ps o){ q.area = -1; q.mutate(o); return q.getArea(o); }
double rhs_m_areaMutateNew(Polygon q, Ps o){ return Polygon(o).getArea(o); }
double lhs_m_areaCopyNew(Polygon q, Ps p){ q.area = -1; Polygon c(q); return c.getArea(p); }
double rhs_m_areaCopyNew(Polygon q, Ps p){ return q.signedArea(p); }
double lhs_m_diameterFixNew(Polygon q, Ps p){ q.diameter = -1; q.fixCCW(p); return q.getDiameter(p); }
double rhs_m_diameterFixNew(Polygon q, Ps p){ q.fixCCW(p); Ps r = q.getPoints(p); return q.calculateDiameter(r); }
Point lhs_m_centroidFixNew(Polygon q, Ps p){ q.centroid = Point(); q.fixCCW(p); return q.getCentroid(p); }
Point rhs_m_centroidFixNew(Polygon q, Ps p){ q.fixCCW(p); return q.calculateCentroid(p); }
double lhs_m_regionNew(Region q, Ps o){ q.area = -1; q.mutate(o); return q.getArea(o); }
double rhs_m_regionNew(Region q, Ps o){ Region r(o); return r.getArea(o); }
double lhs_m_areaCopy(Polygon q, Ps p){ q.area = -1; q.getArea(p); Polygon c(q); return c.getArea(p); }
double rhs_m_areaCopy(Polygon q, Ps p){ return q.signedArea(p); }
double lhs_m_diameter(Ps p, Ps o){ Polygon q(p); q.getDiameter(p); q.mutate(o); return q.getDiameter(o); }
double rhs_m_diameter(Ps p, Ps o){ Polygon q(p); Polygon r(o); return r.getDiameter(o); }
double lhs_m_diameterTwice(Ps p){ Polygon q(p); q.getDiameter(p); return q.getDiameter(p); }
double rhs_m_diameterTwice(Ps p){ return Polygon(p).getDiameter(p); }
Point lhs_m_centroid(Ps p, Ps o){ Polygon q(p); q.getCentroid(p); q.mutate(o); return q.getCentroid(o); }
Point rhs_m_centroid(Ps p, Ps o){ Polygon q(p); Polygon r(o); return r.getCentroid(o); }
Point lhs_m_centroidTwice(Ps p){ Polygon q(p); q.getCentroid(p); return q.getCentroid(p); }
Point rhs_m_centroidTwice(Ps p){ return Polygon(p).getCentroid(p); }
Point lhs_m_centroidCopy(Ps p){ Polygon q(p); q.getCentroid(p); Polygon c(q); return c.getCentroid(p); }
Point rhs_m_centroidCopy(Ps p){ return Polygon(p).getCentroid(p); }
std::size_t lhs_m_hash(Ps p, Ps o){ Polygon q(p); q.mutate(o); return q.hash; }
std::size_t rhs_m_hash(Ps p, Ps o){ Polygon q(p); return Polygon(o).hash; }
std::size_t lhs_m_hashFix(Ps p, Ps o){ Polygon q(p); q.fixCCW(p); return q.hash; }
std::size_t rhs_m_hashFix(Ps p, Ps o){ return Polygon(p).hash; }
double lhs_m_region(Ps p, Ps o){ assume(shoelace(Polygon(p).getPoints(), p) != -1); Region q(p); q.getArea(p); q.mutate(o); return q.getArea(o); }
double rhs_m_region(Ps p, Ps o){ assume(shoelace(Polygon(p).getPoints(), p) != -1); Region q(p); Region r(o); return r.getArea(o); }
