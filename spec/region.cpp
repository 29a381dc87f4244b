// @ C10
// USE contract::Polygon__containsPoint contract::Hole__containsPoint contract::Polygon__isSelfIntersecting opq::inRing opq::crossing opq::fx opq::fy
#include "contracts.h"
#include <delynoi/models/Region.h>
// the seeds that a region may hold: inside its boundary, outside every hole, in the order in which they were given
static std::vector<Point> allowed(Region& r, const std::vector<Point>& all){
    std::vector<Point> kept;
    std::vector<int> ix = r.Polygon::getPoints();
    for (int i=0;i<all.size();i++){
        Point s = all[i];
        bool in = opq::inRing(ringX(ix, r.p), ringY(ix, r.p), s.getX(), s.getY());
        for (Hole h : r.getHoles()) if (opq::inRing(xsOf(h.getPoints()), ysOf(h.getPoints()), s.getX(), s.getY())) in = false;
        if (in) kept.push_back(s);
    }
    return kept;
}
std::vector<Point> lhs_rg_add(Region r, std::vector<Point> s){ r.addSeedPoints(s); return r.getSeedPoints(); }
std::vector<Point> rhs_rg_add(Region r, std::vector<Point> s){
    std::vector<Point> all = r.getSeedPoints();
    for (int i=0;i<s.size();i++) all.push_back(s[i]);
    return allowed(r, all);
}
// functors of any kind: their values are uninterpreted
namespace opq { inline double fx(double x){ return x; } inline double fy(double y){ return y; } }
class AnyX : public Functor { public: double apply(double x){ return opq::fx(x); } };
class AnyY : public Functor { public: double apply(double y){ return opq::fy(y); } };
std::vector<Point> lhs_rg_gen(Region r, int nx, int ny){ PointGenerator g(new AnyX(), new AnyY()); r.generateSeedPoints(g, nx, ny); return r.getSeedPoints(); }
std::vector<Point> rhs_rg_gen(Region r, int nx, int ny){
    std::vector<Point> all = r.getSeedPoints();
    PointGenerator g(new AnyX(), new AnyY());
    g.generate(all, r.getBox(), nx, ny);
    return allowed(r, all);
}
std::vector<Point> lhs_rg_file(Region r, std::string f){ r.addSeedsFromFile(f); return r.getSeedPoints(); }   // + C23
std::vector<Point> rhs_rg_file(Region r, std::string f){
    std::vector<Point> all = r.getSeedPoints();
    std::ifstream in = utilities::openFile(f); std::string line; std::getline(in, line);
    int n = std::atoi(line.c_str());
    for (int i=0;i<n;i++){
        std::getline(in, line); std::vector<std::string> w = utilities::splitBySpaces(line);
        if (w.size() < 2) throw std::runtime_error("");
        all.push_back(Point(std::atof(w[0].c_str()), std::atof(w[1].c_str())));
    }
    return allowed(r, all);
}
std::vector<Point> lhs_rg_mut(Region r, std::vector<Point> p){ r.mutate(p); return r.getSeedPoints(); }
std::vector<Point> rhs_rg_mut(Region r, std::vector<Point> p){
    std::vector<Point> old = r.getSeedPoints(); r.p = p; static_cast<Polygon&>(r) = Polygon(p);
    return allowed(r, old);
}
std::vector<Point> lhs_rg_clear(Region r){ r.cleanSeedPoints(); return r.getSeedPoints(); }
std::vector<Point> rhs_rg_clear(Region r){ return std::vector<Point>(); }
std::vector<Point> lhs_rg_dropHoles(Region r){ r.cleanInternalHoles(); return r.getSeedPoints(); }
std::vector<Point> rhs_rg_dropHoles(Region r){ return r.getSeedPoints(); }
int lhs_rg_dropHoles2(Region r){ r.cleanInternalHoles(); return r.getHoles().size(); }
int rhs_rg_dropHoles2(Region r){ return 0; }
int lhs_rg_new(std::vector<Point> p){ Region r(p); return r.getSeedPoints().size() + r.getHoles().size(); }
int rhs_rg_new(std::vector<Point> p){ Region r(p); return 0; }
// adding or generating seeds touches nothing else
void lhs_rg_addOnly(Region& r, std::vector<Point>& s){ r.addSeedPoints(s); r.cleanSeedPoints(); }
void rhs_rg_addOnly(Region& r, std::vector<Point>& s){ r.cleanSeedPoints(); }
// @ C12
// smallest box around the boundary
double lhs_bb_x0(Region r){ return r.getBox().xMin(); }
double rhs_bb_x0(Region r){ double m = LLONG_MAX; for (int i=0;i<r.p.size();i++) if (r.p[i].getX() < m) m = r.p[i].getX(); double M = LLONG_MIN; for (int i=0;i<r.p.size();i++) if (r.p[i].getX() > M) M = r.p[i].getX(); return m < M ? m : M; }
Point lhs_bb_lo(Region r){ return r.getBox().getFirst(); }
Point rhs_bb_lo(Region r){
    double x = LLONG_MAX, y = LLONG_MAX; 
    for (int i=0;i<r.p.size();i++){ x = std::min(x, r.p[i].getX()); y = std::min(y, r.p[i].getY()); }
    return Point(x, y);
}
Point lhs_bb_hi(Region r){ return r.getBox().getSecond(); }
Point rhs_bb_hi(Region r){
    double x = LLONG_MIN, y = LLONG_MIN; 
    for (int i=0;i<r.p.size();i++){ x = std::max(x, r.p[i].getX()); y = std::max(y, r.p[i].getY()); }
    return Point(x, y);
}
double lhs_bb_w(BoundingBox b){ return b.getWidth(); }
double rhs_bb_w(BoundingBox b){ return b.xMax() - b.xMin(); }
double lhs_bb_h(BoundingBox b){ return b.getHeight(); }
double rhs_bb_h(BoundingBox b){ return b.yMax() - b.yMin(); }
double lhs_bb_xmin(Point p, Point q){ return BoundingBox(p,q).xMin(); }
double rhs_bb_xmin(Point p, Point q){ return p.getX() < q.getX() ? p.getX() : q.getX(); }
double lhs_bb_xmax(Point p, Point q){ return BoundingBox(p,q).xMax(); }
double rhs_bb_xmax(Point p, Point q){ return p.getX() < q.getX() ? q.getX() : p.getX(); }
double lhs_bb_ymin(Point p, Point q){ return BoundingBox(p,q).yMin(); }
double rhs_bb_ymin(Point p, Point q){ return p.getY() < q.getY() ? p.getY() : q.getY(); }
double lhs_bb_ymax(Point p, Point q){ return BoundingBox(p,q).yMax(); }
double rhs_bb_ymax(Point p, Point q){ return p.getY() < q.getY() ? q.getY() : p.getY(); }
bool lhs_bb_contains(Point p, Point q, Point x){ return BoundingBox(p,q).contains(x); }
bool rhs_bb_contains(Point p, Point q, Point x){
    double l = p.getX() < q.getX() ? p.getX() : q.getX(), r = p.getX() < q.getX() ? q.getX() : p.getX();
    double d = p.getY() < q.getY() ? p.getY() : q.getY(), u = p.getY() < q.getY() ? q.getY() : p.getY();
    return l <= x.getX() && x.getX() <= r && d <= x.getY() && x.getY() <= u;
}
bool lhs_bb_swap(Point p, Point q, Point x){ return BoundingBox(p,q).contains(x); }
bool rhs_bb_swap(Point p, Point q, Point x){ return BoundingBox(q,p).contains(x); }
void lhs_bb_segments(Point p, Point q, std::vector<PointSegment>& s){ BoundingBox(p,q).getSegments(s); }
void rhs_bb_segments(Point p, Point q, std::vector<PointSegment>& s){
    Point c(q.getX(), p.getY()), d(p.getX(), q.getY());
    s.push_back(PointSegment(p,c)); s.push_back(PointSegment(c,q)); s.push_back(PointSegment(q,d)); s.push_back(PointSegment(d,p));
}
Point lhs_bb_first(Point p, Point q){ return BoundingBox(p,q).getFirst(); }
Point rhs_bb_first(Point p, Point q){ return p; }
Point lhs_bb_second(Point p, Point q){ return BoundingBox(p,q).getSecond(); }
Point rhs_bb_second(Point p, Point q){ return q; }
