// @ C07
// USE contract::IndexSegment__contains contract::Point__operatorEQ opq::onSegment opq::same
#include "contracts.h"
#include <delynoi/models/Region.h>
bool lhs_c_contains(Polygon q, std::vector<Point>& p, Point x){ return q.containsPoint(p, x); }
bool rhs_c_contains(Polygon q, std::vector<Point>& p, Point x){ return contract::Polygon__containsPoint(q, p, x); }
bool lhs_inEdges(Polygon q, std::vector<Point>& p, Point x){ return q.inEdges(p, x); }
bool rhs_inEdges(Polygon q, std::vector<Point>& p, Point x){ return opq::onRing(ringX(q.getPoints(), p), ringY(q.getPoints(), p), x.getX(), x.getY()); }
static Hole ringHole(std::vector<Point> r, Point c){
    std::vector<IndexSegment> s; int n = r.size();
    for (int i=0;i<n;i++) s.push_back(IndexSegment(i, (i+1)%n));
    return Hole(r, c, s);
}
bool lhs_c_holeContains(std::vector<Point> r, Point c, Point x){ assume(r.size() > 0); return ringHole(r, c).containsPoint(x); }
bool rhs_c_holeContains(std::vector<Point> r, Point c, Point x){ assume(r.size() > 0); Hole h = ringHole(r, c); return contract::Hole__containsPoint(h, x); }
// a region answers like its boundary polygon, whatever its holes and seeds
bool lhs_regionContains(Region r, Point x){ return r.containsPoint(x); }
bool rhs_regionContains(Region r, Point x){ return opq::inRing(ringX(r.Polygon::getPoints(), r.p), ringY(r.Polygon::getPoints(), r.p), x.getX(), x.getY()); }
bool lhs_regionEdges(Region r, Point x){ return r.inEdges(x); }
bool rhs_regionEdges(Region r, Point x){ return opq::onRing(ringX(r.Polygon::getPoints(), r.p), ringY(r.Polygon::getPoints(), r.p), x.getX(), x.getY()); }
