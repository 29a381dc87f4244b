// @ C25
// USE
#include "contracts.h"
#include <delynoi/models/Region.h>
#include <delynoi/models/hole/PolygonalHole.h>
#include <delynoi/models/hole/CircularHole.h>
#include <delynoi/models/polygon/Circle.h>
#include <delynoi/voronoi/structures/PointData.h>
#include <delynoi/models/polygon/Triangle.h>
#include <delynoi/models/basic/Angle.h>
#include <delynoi/models/neighbourhood/EdgeData.h>
#include <utilities/maputils.h>
typedef std::vector<Point> Ps;
// a point is the place it was given; the default one is the origin and counts as empty
struct P4 { double x, y; bool border, valid; };
static P4 seen(Point p){ P4 s; s.x = p.getX(); s.y = p.getY(); s.border = p.isInBoundary(); s.valid = p.isValid(); return s; }
static P4 p4(double x, double y, bool b, bool v){ P4 s; s.x = x; s.y = y; s.border = b; s.valid = v; return s; }
P4 lhs_va_point(double x, double y){ return seen(Point(x, y)); }
P4 rhs_va_point(double x, double y){ return p4(x, y, false, true); }
P4 lhs_va_point0(){ return seen(Point()); }
P4 rhs_va_point0(){ return p4(0, 0, false, false); }
P4 lhs_va_border(Point p){ p.setBoundary(); return seen(p); }
P4 rhs_va_border(Point p){ return p4(p.getX(), p.getY(), true, p.isValid()); }
P4 lhs_va_setX(Point p, double v){ p.setX(v); return seen(p); }
P4 rhs_va_setX(Point p, double v){ return p4(v, p.getY(), p.isInBoundary(), p.isValid()); }
P4 lhs_va_setY(Point p, double v){ p.setY(v); return seen(p); }
P4 rhs_va_setY(Point p, double v){ return p4(p.getX(), v, p.isInBoundary(), p.isValid()); }
P4 lhs_va_pointCopy(Point p){ Point q(p); Point r; r = q; return seen(r); }
P4 rhs_va_pointCopy(Point p){ return seen(p); }
P4 lhs_va_pointOwn(Point p, double v){ Point q(p); q.setX(v); q.setBoundary(); return seen(p); }
P4 rhs_va_pointOwn(Point p, double v){ return seen(p); }
// a segment keeps its ends in the order given, through copies
std::vector<int> lhs_va_seg(int a, int b){ IndexSegment s(a, b), t(s), u; u = t; std::vector<int> r; r.push_back(s.getFirst()); r.push_back(s.getSecond()); r.push_back(u.getFirst()); r.push_back(u.getSecond()); return r; }
std::vector<int> rhs_va_seg(int a, int b){ std::vector<int> r; r.push_back(a); r.push_back(b); r.push_back(a); r.push_back(b); return r; }
bool lhs_va_segEnd(IndexSegment s, int i){ return s.isVertex(i); }
bool rhs_va_segEnd(IndexSegment s, int i){ return s.getFirst() == i || s.getSecond() == i; }
Ps lhs_va_pseg(Point a, Point b){ PointSegment s(a, b), t(s), u; u = t; Ps r; r.push_back(s.getFirst()); r.push_back(s.getSecond()); r.push_back(u.getFirst()); r.push_back(u.getSecond()); return r; }
Ps rhs_va_pseg(Point a, Point b){ Ps r; r.push_back(a); r.push_back(b); r.push_back(a); r.push_back(b); return r; }
// an angle is taken modulo half a turn
double lhs_va_angle(double a){ return Angle(a).angle; }
double rhs_va_angle(double a){ double k = std::floor(a / 180); return a - 180 * k < 180 ? a - 180 * k : 0; }
// a polygon keeps its vertices in order, through copies and assignment; a copy shares nothing with the original
std::vector<int> lhs_va_polyCopy(Polygon p){ Polygon q(p); return q.getPoints(); }
std::vector<int> rhs_va_polyCopy(Polygon p){ return p.getPoints(); }
std::vector<int> lhs_va_polySet(Polygon p, Polygon o){ o = p; return o.getPoints(); }
std::vector<int> rhs_va_polySet(Polygon p, Polygon o){ return p.getPoints(); }
double lhs_va_polyArea(Polygon p, Ps& v){ Polygon q(p); return q.getArea(v); }
double rhs_va_polyArea(Polygon p, Ps& v){ return p.getArea(v); }
double lhs_va_polyDiam(Polygon p, Ps& v){ Polygon q(p); return q.getDiameter(v); }
double rhs_va_polyDiam(Polygon p, Ps& v){ return p.getDiameter(v); }
Point lhs_va_polyCentre(Polygon p, Ps& v){ Polygon q(p); return q.getCentroid(v); }
Point rhs_va_polyCentre(Polygon p, Ps& v){ return p.getCentroid(v); }
bool lhs_va_polySame(Polygon p){ Polygon q(p), r(p); return q == r; }
bool rhs_va_polySame(Polygon p){ return true; }
double lhs_va_polySetArea(Polygon p, Polygon o, Ps& v){ o = p; return o.getArea(v); }
double rhs_va_polySetArea(Polygon p, Polygon o, Ps& v){ return p.getArea(v); }
std::vector<int> lhs_va_poly0(){ return Polygon().getPoints(); }
std::vector<int> rhs_va_poly0(){ return std::vector<int>(); }
// a triangle also keeps its circumcentre and where that is listed; without one the index is -1
static Ps one(Point p){ return Ps(1, p); }
int lhs_va_tri0(){ return Triangle().getCircumcenterIndex(); }
int rhs_va_tri0(){ return -1; }
int lhs_va_triIndex(std::vector<int> v, Ps& p){ assume(v.size() == 3); return Triangle(v, p).getCircumcenterIndex(); }
int rhs_va_triIndex(std::vector<int> v, Ps& p){ assume(v.size() == 3); Triangle t(v, p); return -1; }
Ps lhs_va_triCopy(Triangle t){ Triangle c(t), d; d = c; Ps r = one(d.getCircumcenter()); r.push_back(Point(c.getCircumcenterIndex(), d.getCircumcenterIndex())); return r; }
Ps rhs_va_triCopy(Triangle t){ Ps r = one(t.getCircumcenter()); r.push_back(Point(t.getCircumcenterIndex(), t.getCircumcenterIndex())); return r; }
std::vector<int> lhs_va_triPoints(Triangle t){ Triangle c(t), d; d = c; return d.getPoints(); }
std::vector<int> rhs_va_triPoints(Triangle t){ return t.getPoints(); }
// a hole keeps its ring, segments and centre; those of a copy are its own
Ps lhs_va_hole(Point c, Ps& p, std::vector<IndexSegment> s){ Hole h(p, c, s); Hole g(h); Ps r = g.getPoints(); r.push_back(g.getCenter()); return r; }
Ps rhs_va_hole(Point c, Ps& p, std::vector<IndexSegment> s){ Ps r = p; r.push_back(c); return r; }
std::vector<IndexSegment> lhs_va_holeSides(Hole h, int o){ Hole g(h); std::vector<IndexSegment> r; g.getSegments(r, o); return r; }
std::vector<IndexSegment> rhs_va_holeSides(Hole h, int o){ std::vector<IndexSegment> r; for (int k = 0; k < (int) h.segments.size(); k++) r.push_back(IndexSegment(h.segments[k].getFirst() + o, h.segments[k].getSecond() + o)); return r; }
Ps lhs_va_hole0(){ Hole h; Ps r = h.getPoints(); r.push_back(h.getCenter()); return r; }
Ps rhs_va_hole0(){ return one(Point()); }
// a region's copy has its points, seeds, holes and sides, and changing the copy leaves it as it was
Ps lhs_va_regSeeds(Region r){ Region c(r); return c.getSeedPoints(); }
Ps rhs_va_regSeeds(Region r){ return r.getSeedPoints(); }
Ps lhs_va_regPoints(Region r){ Region c(r); return c.getRegionPoints(); }
Ps rhs_va_regPoints(Region r){ return r.getRegionPoints(); }
void lhs_va_regSides(Region r, std::vector<IndexSegment>& s){ Region c(r); c.getSegments(s); }
void rhs_va_regSides(Region r, std::vector<IndexSegment>& s){ r.getSegments(s); }
int lhs_va_regHoles(Region r){ Region c(r); return c.getHoles().size(); }
int rhs_va_regHoles(Region r){ return r.getHoles().size(); }
Ps lhs_va_regOwn(Region r){ Region c(r); c.cleanSeedPoints(); c.cleanInternalHoles(); Ps s = r.getSeedPoints(); s.push_back(Point(r.getHoles().size(), 0)); return s; }
Ps rhs_va_regOwn(Region r){ Ps s = r.getSeedPoints(); s.push_back(Point(r.getHoles().size(), 0)); return s; }
// records of the triangulation start out without triangles, without an edge
std::vector<int> lhs_va_edge(int a, int b){ EdgeData e(a, b); std::vector<int> r; r.push_back(e.p1); r.push_back(e.p2); r.push_back(e.t1); r.push_back(e.t2); return r; }
std::vector<int> rhs_va_edge(int a, int b){ std::vector<int> r; r.push_back(a); r.push_back(b); r.push_back(-1); r.push_back(-1); return r; }
std::vector<int> lhs_va_pdata(int a){ PointData e(a); std::vector<int> r; r.push_back(e.point); r.push_back(e.edge); return r; }
std::vector<int> rhs_va_pdata(int a){ std::vector<int> r; r.push_back(a); r.push_back(-1); return r; }
// USE outline:Polygon::Polygon outline:Region::containsPoint outline:Polygon::mutate outline:utilities::hash32
std::vector<int> lhs_va_polyOwn(Polygon p, Ps& v){ Polygon q(p); q.fixCCW(v); return p.getPoints(); }
std::vector<int> rhs_va_polyOwn(Polygon p, Ps& v){ return p.getPoints(); }
// a region made from a polygon of some points has the polygon's vertices in order, no seeds and no holes
Ps lhs_va_regOf(Polygon p, Ps& v){ Region r(p, v); Ps s = r.p; s.push_back(Point(r.getSeedPoints().size(), r.getHoles().size())); return s; }
Ps rhs_va_regOf(Polygon p, Ps& v){ Region t; std::vector<int> q = p.getPoints(); for (int k = 0; k < (int) q.size(); k++) t.p.push_back(v[q[k]]); t.Polygon::mutate(t.p); Ps s = t.p; s.push_back(Point(t.getSeedPoints().size(), t.getHoles().size())); return s; }
// @ C26
// USE
// vectors of two components
std::vector<double> two(Pair<double> p){ std::vector<double> r; r.push_back(p.first); r.push_back(p.second); return r; }
std::vector<double> two(double a, double b){ std::vector<double> r; r.push_back(a); r.push_back(b); return r; }
std::vector<double> lhs_he_pair(double a, double b){ Pair<double> p(a, b), q(p); return two(q); }
std::vector<double> rhs_he_pair(double a, double b){ return two(a, b); }
std::vector<double> lhs_he_pair0(){ return two(Pair<double>()); }
std::vector<double> rhs_he_pair0(){ return two(0, 0); }
std::vector<double> lhs_he_plus(Pair<double> p, Pair<double> q){ return two(p + q); }
std::vector<double> rhs_he_plus(Pair<double> p, Pair<double> q){ return two(p.first + q.first, p.second + q.second); }
std::vector<double> lhs_he_times(Pair<double> p, double k){ return two(p * k); }
std::vector<double> rhs_he_times(Pair<double> p, double k){ return two(k * p.first, k * p.second); }
double lhs_he_dot(Pair<double> p, Pair<double> q){ return p.dot(q); }
double rhs_he_dot(Pair<double> p, Pair<double> q){ return p.first * q.first + p.second * q.second; }
std::vector<double> lhs_he_unit(Pair<double> p){ return two(utilities::normalize(p)); }
std::vector<double> rhs_he_unit(Pair<double> p){ double n = std::sqrt(p.first * p.first + p.second * p.second); return two(p.first / n, p.second / n); }
double lhs_he_radian(double a){ return utilities::radian(a); }
double rhs_he_radian(double a){ return M_PI * a / 180; }
double lhs_he_degrees(double a){ assume(a != 0); return utilities::degrees(a); }
double rhs_he_degrees(double a){ assume(a != 0); return a > 0 ? 180 * a / M_PI : 360 + 180 * a / M_PI; }
int lhs_he_sign(double a){ return utilities::sign<double>(a); }
int rhs_he_sign(double a){ return a > 0 ? 1 : a < 0 ? -1 : 0; }
int lhs_he_index(std::vector<int> v, int x){ return utilities::indexOf<int>(v, x); }
int rhs_he_index(std::vector<int> v, int x){ for (int k = 0; k < (int) v.size(); k++) if (v[k] == x) return k; return -1; }
std::string lhs_he_digits(double x, int n){ return utilities::toStringWithPrecision(x, n); }
std::string rhs_he_digits(double x, int n){ std::stringstream s; s.precision(n); s << std::fixed << x; return s.str(); }
int lhs_he_key(std::pair<int, double> p){ return map_utils::GetKeys()(p); }
int rhs_he_key(std::pair<int, double> p){ return p.first; }
double lhs_he_value(std::pair<int, double> p){ return map_utils::GetValues()(p); }
double rhs_he_value(std::pair<int, double> p){ return p.second; }
bool holds_he_random(int a, int b){ assume(a <= b); return drawnWithin(utilities::random_integer(a, b), a, b); }
// the words of a line: what is between separators, without empty ones; separators are runs of white space
typedef std::vector<std::string> Ws;
Ws lhs_he_split(std::string s, std::regex r){ return utilities::split(s, r); }   // + C23
Ws rhs_he_split(std::string s, std::regex r){ Ws w; std::sregex_token_iterator i(s.begin(), s.end(), r, -1), e; while (i != e){ std::string t = *i; if (t.size() > 0) w.push_back(t); ++i; } return w; }
Ws lhs_he_words(std::string s){ return utilities::splitBySpaces(s); }   // + C23
Ws rhs_he_words(std::string s){ return utilities::split(s, std::regex("\\s+")); }
// files are named below the home directory; one that cannot be opened is an error
std::string lhs_he_path(){ return utilities::getPath(); }
std::string rhs_he_path(){ std::string h = std::getenv("HOME"); return h + "/"; }
std::string lhs_he_open(std::string n){ std::ifstream f = utilities::openFile(n); std::string l; std::getline(f, l); return l; }   // + C23
std::string rhs_he_open(std::string n){ std::ifstream f(utilities::getPath() + n); if (!f.good()) throw std::runtime_error(""); std::string l; std::getline(f, l); return l; }
