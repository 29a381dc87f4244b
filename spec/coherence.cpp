// @ C06
#include "contracts.h"
#include <delynoi/models/polygon/Polygon.h>
#include <delynoi/models/polygon/BoundingBox.h>
#include <delynoi/models/basic/Angle.h>
#include <delynoi/models/neighbourhood/EdgeData.h>
#include <delynoi/models/neighbourhood/NeighboursBySegment.h>
#include <delynoi/voronoi/structures/mapdata.h>
// what equality means for each value type
bool lhs_pointEq(Point a, Point b){ return a == b; }
bool rhs_pointEq(Point a, Point b){ return samePlace(a, b); }
bool lhs_pointLt(Point a, Point b){ return a < b; }
bool rhs_pointLt(Point a, Point b){
    if (!near(a.getX(), b.getX())) return a.getX() < b.getX();
    return !near(a.getY(), b.getY()) && a.getY() < b.getY();
}
bool lhs_isegEq(IndexSegment s, IndexSegment o){ return s == o; }
bool rhs_isegEq(IndexSegment s, IndexSegment o){
    return (s.getFirst() == o.getFirst() && s.getSecond() == o.getSecond()) || (s.getFirst() == o.getSecond() && s.getSecond() == o.getFirst());
}
bool lhs_psegEq(PointSegment s, PointSegment o){ return s == o; }
bool rhs_psegEq(PointSegment s, PointSegment o){
    return (samePlace(s.getFirst(), o.getFirst()) && samePlace(s.getSecond(), o.getSecond())) || (samePlace(s.getFirst(), o.getSecond()) && samePlace(s.getSecond(), o.getFirst()));
}
bool lhs_keyEq(int a, int b, int c, int d){ return Key(a,b) == Key(c,d); }
bool rhs_keyEq(int a, int b, int c, int d){ return (a==c && b==d) || (a==d && b==c); }
bool lhs_edgeEq(EdgeData a, EdgeData b){ return a == b; }
bool rhs_edgeEq(EdgeData a, EdgeData b){ return (a.p1==b.p1 && a.p2==b.p2) || (a.p1==b.p2 && a.p2==b.p1); }
bool lhs_neighEq(NeighboursBySegment a, NeighboursBySegment b){ return a == b; }
bool rhs_neighEq(NeighboursBySegment a, NeighboursBySegment b){
    return (a.getFirst()==b.getFirst() && a.getSecond()==b.getSecond()) || (a.getFirst()==b.getSecond() && a.getSecond()==b.getFirst());
}
bool lhs_boxEq(BoundingBox a, BoundingBox b){ return a == b; }
bool rhs_boxEq(BoundingBox a, BoundingBox b){
    return (samePlace(a.getFirst(), b.getFirst()) && samePlace(a.getSecond(), b.getSecond())) || (samePlace(a.getFirst(), b.getSecond()) && samePlace(a.getSecond(), b.getFirst()));
}
bool lhs_pairEq(Pair<int> a, Pair<int> b){ return a == b; }
bool rhs_pairEq(Pair<int> a, Pair<int> b){ return a.first == b.first && a.second == b.second; }
// equality of the symmetric types does not see the direction, and neither do the hashes used by the maps
std::size_t lhs_segHash(int a, int b){ SegmentHasher h; return h(IndexSegment(a,b)); }
std::size_t rhs_segHash(int a, int b){ SegmentHasher h; return h(IndexSegment(b,a)); }
std::size_t lhs_segHashCopy(int a, int b){ IndexSegment s(a,b); IndexSegment c(s); SegmentHasher h; return h(c); }
std::size_t rhs_segHashCopy(int a, int b){ SegmentHasher h; return h(IndexSegment(a,b)); }
std::size_t lhs_segHashDef(){ SegmentHasher h; return h(IndexSegment()); }
std::size_t rhs_segHashDef(){ SegmentHasher h; return h(IndexSegment(0,0)); }
std::size_t lhs_keyHash(int a, int b){ KeyHasher h; return h(Key(a,b)); }
std::size_t rhs_keyHash(int a, int b){ KeyHasher h; return h(Key(b,a)); }
std::size_t lhs_neighHash(int a, int b){ NeighboursHasher h; return h(NeighboursBySegment(a,b)); }
std::size_t rhs_neighHash(int a, int b){ NeighboursHasher h; return h(NeighboursBySegment(b,a)); }
std::size_t lhs_addHash(int a, int b, int o){ SegmentHasher h; return h(IndexSegment(a,b).add(o)); }
std::size_t rhs_addHash(int a, int b, int o){ SegmentHasher h; return h(IndexSegment(a+o,b+o)); }
// orders: irreflexive, asymmetric, and never separating what equality identifies
bool holds_pointIrr(Point a){ return !(a < a); }
bool holds_pointAsym(Point a, Point b){ assume(tol() > 0); return !(a < b && b < a); }
bool holds_pointEqNotLt(Point a, Point b){ return !(a == b && a < b); }
bool holds_isegIrr(IndexSegment a){ return !(a < a); }
bool holds_isegAsym(IndexSegment a, IndexSegment b){ return !(a < b && b < a); }
bool holds_isegFlip(int a, int b){ return !(IndexSegment(a,b) < IndexSegment(b,a)); }
bool lhs_isegLt(IndexSegment a, IndexSegment b){ return a < b; }
bool rhs_isegLt(IndexSegment a, IndexSegment b){
    int al = a.getFirst() < a.getSecond() ? a.getFirst() : a.getSecond(), ah = a.getFirst() < a.getSecond() ? a.getSecond() : a.getFirst();
    int bl = b.getFirst() < b.getSecond() ? b.getFirst() : b.getSecond(), bh = b.getFirst() < b.getSecond() ? b.getSecond() : b.getFirst();
    return al < bl || (al == bl && ah < bh);
}
bool lhs_pairLt(Pair<int> a, Pair<int> b){ return a < b; }
bool rhs_pairLt(Pair<int> a, Pair<int> b){ return a.first < b.first || (a.first == b.first && a.second < b.second); }
bool holds_pairIrr(Pair<int> a){ return !(a < a); }
bool holds_pairAsym(Pair<int> a, Pair<int> b){ return !(a < b && b < a); }
bool holds_pairTotal(Pair<int> a, Pair<int> b){ return a == b || a < b || b < a; }
bool holds_pairEqNotLt(Pair<int> a, Pair<int> b){ return !(a == b && a < b); }
bool holds_angleIrr(double a){ return !(Angle(a) < Angle(a)); }
bool holds_angleAsym(double a, double b){ return !(Angle(a) < Angle(b) && Angle(b) < Angle(a)); }
double lhs_angle(double a){ return Angle(a).angle; }
double rhs_angle(double a){ double r = a - std::floor(a/180)*180; return r < 180 ? r : 0; }
bool lhs_angleLt(double a, double b){ return Angle(a) < Angle(b); }
bool rhs_angleLt(double a, double b){ double x = Angle(a).angle, y = Angle(b).angle; return !near(x,y) && x < y; }
// polygons: same vertex set, whatever the order they are listed in
bool lhs_polyEq(Polygon a, Polygon b){ return a == b; }
bool rhs_polyEq(Polygon a, Polygon b){
    std::vector<int> x = a.getPoints(), y = b.getPoints();
    std::sort(x.begin(), x.end()); std::sort(y.begin(), y.end());
    return a.hash == b.hash && x == y;
}
bool lhs_polyLt(Polygon a, Polygon b){ return a < b; }
bool rhs_polyLt(Polygon a, Polygon b){
    std::vector<int> x = a.getPoints(), y = b.getPoints();
    std::sort(x.begin(), x.end()); std::sort(y.begin(), y.end());
    return a.hash < b.hash || (a.hash == b.hash && x < y);
}
bool holds_polyRefl(Polygon a){ return a == a && !(a < a); }
std::size_t lhs_polyHash(std::vector<int> ix, std::vector<Point>& p){ return Polygon(ix, p).hash; }
std::size_t rhs_polyHash(std::vector<int> ix, std::vector<Point>& p){ std::vector<int> r = ix; std::reverse(r.begin(), r.end()); return Polygon(r, p).hash; }
std::size_t lhs_polyHashFix(std::vector<int> ix, std::vector<Point>& p){ Polygon q(ix, p); q.fixCCW(p); return q.hash; }
std::size_t rhs_polyHashFix(std::vector<int> ix, std::vector<Point>& p){ return Polygon(ix, p).hash; }
std::size_t lhs_polyHashCopy(std::vector<int> ix, std::vector<Point>& p){ Polygon q(ix, p); Polygon c(q); return c.hash; }
std::size_t rhs_polyHashCopy(std::vector<int> ix, std::vector<Point>& p){ return Polygon(ix, p).hash; }
// USE contract::Polygon__isSelfIntersecting opq::crossing
std::size_t lhs_polyHashMut(std::vector<Point>& p, std::vector<Point>& q){ Polygon a(q); a.mutate(p); return a.hash; }
std::size_t rhs_polyHashMut(std::vector<Point>& p, std::vector<Point>& q){ Polygon b(q); return Polygon(p).hash; }
// USE
// a polygon edge is found in either direction
bool lhs_hasEdge(Polygon q, IndexSegment s){ return q.containsEdge(s); }
bool rhs_hasEdge(Polygon q, IndexSegment s){ IndexSegment r(s.getSecond(), s.getFirst()); return q.containsEdge(r); }
