// @ C11
// USE contract::Polygon__containsPoint contract::Hole__containsPoint contract::Polygon__isSelfIntersecting opq::inRing opq::crossing
#include "contracts.h"
#include <delynoi/models/Region.h>
#include <delynoi/models/hole/CircularHole.h>
#include <delynoi/models/hole/PolygonalHole.h>
#include <delynoi/models/hole/clipper/ClipperWrapper.h>
static ClipperLib::Path scaled(const std::vector<Point>& v){
    int m = DelynoiConfig::instance()->getScale(); ClipperLib::Path r;
    for (int i=0;i<v.size();i++) r.push_back(ClipperLib::IntPoint((ClipperLib::cInt)(m*v[i].getX()), (ClipperLib::cInt)(m*v[i].getY())));
    return r;
}
static ClipperLib::Paths clip(ClipperLib::ClipType op, const std::vector<Point>& a, const std::vector<Point>& b){
    ClipperLib::Clipper c; ClipperLib::Paths out;
    c.AddPath(scaled(a), ClipperLib::ptSubject, true); c.AddPath(scaled(b), ClipperLib::ptClip, true);
    c.Execute(op, out, ClipperLib::pftNonZero, ClipperLib::pftNonZero);
    return out;
}
static bool inBoundary(Region& r, Point q){ std::vector<int> ix = r.Polygon::getPoints(); return opq::inRing(ringX(ix, r.p), ringY(ix, r.p), q.getX(), q.getY()); }
static void keepAllowed(Region& r){
    std::vector<Point> kept;
    for (int i=0;i<r.seedPoints.size();i++){
        Point s = r.seedPoints[i];
        bool in = inBoundary(r, s);
        for (Hole h : r.holes) if (opq::inRing(xsOf(h.getPoints()), ysOf(h.getPoints()), s.getX(), s.getY())) in = false;
        if (in) kept.push_back(s);
    }
    r.seedPoints = kept;
}
// a hole with no common area is rejected; one that leaves the boundary in one piece is cut out of it; any other whose centre
// is inside is registered
static void cut(Region& r, Hole h){
    if (clip(ClipperLib::ctIntersection, r.p, h.getPoints()).size() == 0) throw std::invalid_argument("");
    ClipperLib::Paths d = clip(ClipperLib::ctDifference, r.p, h.getPoints());
    if (d.size() == 1){
        std::vector<Point> ring; double m = DelynoiConfig::instance()->getScale();
        for (int i=0;i<d[0].size();i++) ring.push_back(Point(d[0][i].X/m, d[0][i].Y/m));
        static_cast<Polygon&>(r) = Polygon(ring);
        r.p = ring;
        keepAllowed(r);
    } else {
        if (!inBoundary(r, h.getCenter())) throw std::invalid_argument("");
        r.holes.push_back(h);
        keepAllowed(r);
    }
}
std::vector<Point> lhs_ho_ring(Region r, Hole h){ r.addHole(h); return r.p; }
std::vector<Point> rhs_ho_ring(Region r, Hole h){ cut(r, h); return r.p; }
std::vector<int> lhs_ho_index(Region r, Hole h){ r.addHole(h); return r.Polygon::getPoints(); }
std::vector<int> rhs_ho_index(Region r, Hole h){ cut(r, h); return r.Polygon::getPoints(); }
std::vector<Point> lhs_ho_seeds(Region r, Hole h){ r.addHole(h); return r.getSeedPoints(); }
std::vector<Point> rhs_ho_seeds(Region r, Hole h){ cut(r, h); return r.getSeedPoints(); }
std::vector<Hole> lhs_ho_holes(Region r, Hole h){ r.addHole(h); return r.getHoles(); }
std::vector<Hole> rhs_ho_holes(Region r, Hole h){ cut(r, h); return r.getHoles(); }
ClipperLib::Paths lhs_ho_wrap(std::vector<Point> a, std::vector<Point> b, int s){ return ClipperWrapper::polyIntersection(a, b, s); }
ClipperLib::Paths rhs_ho_wrap(std::vector<Point> a, std::vector<Point> b, int s){
    ClipperLib::Path p, q; ClipperLib::Paths out; ClipperLib::Clipper c;
    for (int i=0;i<a.size();i++) p.push_back(ClipperLib::IntPoint((ClipperLib::cInt)(s*a[i].getX()), (ClipperLib::cInt)(s*a[i].getY())));
    for (int i=0;i<b.size();i++) q.push_back(ClipperLib::IntPoint((ClipperLib::cInt)(s*b[i].getX()), (ClipperLib::cInt)(s*b[i].getY())));
    c.AddPath(p, ClipperLib::ptSubject, true); c.AddPath(q, ClipperLib::ptClip, true);
    c.Execute(ClipperLib::ctDifference, out, ClipperLib::pftNonZero, ClipperLib::pftNonZero);
    return out;
}
// points and edges of a region: boundary first, then every hole, edges of a hole after as many points as precede it
std::vector<Point> lhs_ho_points(Region r){ return r.getRegionPoints(); } // + C18
std::vector<Point> rhs_ho_points(Region r){ std::vector<Point> v; for (int i=0;i<r.p.size();i++) v.push_back(r.p[i]); for (Hole h : r.holes) for (Point q : h.getPoints()) v.push_back(q); return v; }
void lhs_ho_segments(Region r, std::vector<IndexSegment>& s){ r.getSegments(s); } // + C18
void rhs_ho_segments(Region r, std::vector<IndexSegment>& s){
    std::vector<int> ix = r.Polygon::getPoints(); int n = ix.size();
    for (int i=0;i<n;i++) s.push_back(IndexSegment(ix[i], ix[(i+1)%n]));
    int before = r.p.size();
    for (Hole h : r.holes){ for (IndexSegment e : h.segments) s.push_back(IndexSegment(e.getFirst() + before, e.getSecond() + before)); before += h.getPoints().size(); }
}
// what the kinds of holes consist of
std::vector<Point> lhs_ho_poly(std::vector<Point> p){ PolygonalHole h(p); Hole& q = h; return q.getPoints(); }
std::vector<Point> rhs_ho_poly(std::vector<Point> p){ PolygonalHole h(p); return p; }
void lhs_ho_polySeg(std::vector<Point> p, std::vector<IndexSegment>& s, int o){ PolygonalHole h(p); Hole& q = h; q.getSegments(s, o); }
void rhs_ho_polySeg(std::vector<Point> p, std::vector<IndexSegment>& s, int o){ PolygonalHole h(p); int n = p.size(); for (int i=0;i<n;i++) s.push_back(IndexSegment(i + o, (i+1)%n + o)); }
Point lhs_ho_polyCentre(std::vector<Point> p){ PolygonalHole h(p); Hole& q = h; return q.getCenter(); } // + C18
Point rhs_ho_polyCentre(std::vector<Point> p){ PolygonalHole h(p); Polygon q(p); return q.getCentroid(p); }
std::vector<Point> circle(Point c, double r){
    std::vector<Point> v; int g = DelynoiConfig::instance()->getDiscretizationGrade();
    for (int i=0;i<g;i++) v.push_back(Point(c.getX() + r*std::cos(2*M_PI*i/g), c.getY() + r*std::sin(2*M_PI*i/g)));
    return v;
}
std::vector<Point> lhs_ho_circle(Point c, double r){ CircularHole h(c, r); Hole& q = h; return q.getPoints(); } // + C13
std::vector<Point> rhs_ho_circle(Point c, double r){ CircularHole h(c, r); return circle(c, r); }
std::vector<Point> lhs_ho_disc(Point c, double r){ Circle k(r, c); return k.discretizeCircle(); } // + C13 C24
std::vector<Point> rhs_ho_disc(Point c, double r){ return circle(c, r); }
void lhs_ho_circleSeg(Point c, double r, std::vector<IndexSegment>& s, int o){ assume(DelynoiConfig::instance()->getDiscretizationGrade() > 0); CircularHole h(c, r); Hole& q = h; q.getSegments(s, o); }
void rhs_ho_circleSeg(Point c, double r, std::vector<IndexSegment>& s, int o){ assume(DelynoiConfig::instance()->getDiscretizationGrade() > 0); CircularHole h(c, r); int n = DelynoiConfig::instance()->getDiscretizationGrade(); for (int i=0;i<n;i++) s.push_back(IndexSegment(i + o, (i+1)%n + o)); }
Point lhs_ho_circleCentre(Point c, double r){ CircularHole h(c, r); Hole& q = h; return q.getCenter(); } // + C18
Point rhs_ho_circleCentre(Point c, double r){ CircularHole h(c, r); return c; }
