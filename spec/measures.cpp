// @ C02
#include "spec.h"
#include <delynoi/models/polygon/Triangle.h>
#include <delynoi/utilities/geometryFunctions.h>
#include <delynoi/utilities/delynoi_utilities.h>
static double shoelace(const std::vector<int>& ix, const std::vector<Point>& p){
    double s = 0; int n = ix.size();
    for (int i=0;i<n;i++){ Point a = p[ix[i]], b = p[ix[(i+1)%n]]; s += (a.getX()*b.getY() - b.getX()*a.getY())/2; }
    return s;
}
// every area of the library is the signed area of the closed vertex ring
double lhs_signed(Polygon q, std::vector<Point>& p){ return q.signedArea(p); }
double rhs_signed(Polygon q, std::vector<Point>& p){ return shoelace(q.getPoints(), p); }
double lhs_area(Polygon q, std::vector<Point>& p){ assume(q.area == -1); return q.getArea(p); }
double rhs_area(Polygon q, std::vector<Point>& p){ assume(q.area == -1); return shoelace(q.getPoints(), p); }
double lhs_garea(std::vector<Point>& p, std::vector<int> ix){ return geometry_functions::area(p, ix); }
double rhs_garea(std::vector<Point>& p, std::vector<int> ix){ return shoelace(ix, p); }
double lhs_garea1(std::vector<Point>& p){ return geometry_functions::area(p); }
double rhs_garea1(std::vector<Point>& p){
    double s = 0; int n = p.size();
    for (int i=0;i<n;i++){ s += (p[i].getX()*p[(i+1)%n].getY() - p[(i+1)%n].getX()*p[i].getY())/2; }
    return s;
}
double lhs_tri(Point a, Point b, Point c){ return geometry_functions::triangleArea(a,b,c); }
double rhs_tri(Point a, Point b, Point c){ return cross3(a,b,c)/2; }
double lhs_tri2(Point a, Point b, Point c){ return geometry_functions::area2(a,b,c); }
double rhs_tri2(Point a, Point b, Point c){ return cross3(a,b,c); }
double lhs_orient(Point a, Point b, Point c){ return delynoi_utilities::orientation(a,b,c); }
double rhs_orient(Point a, Point b, Point c){ return cross3(a,b,c); }
double lhs_cross(Point a, Point b){ return delynoi_utilities::crossProduct(a,b); }
double rhs_cross(Point a, Point b){ return a.getX()*b.getY() - b.getX()*a.getY(); }
bool lhs_coll(Point a, Point b, Point c){ return geometry_functions::collinear(a,b,c); }
bool rhs_coll(Point a, Point b, Point c){ return std::abs(cross3(a,b,c)) < tol(); }
bool lhs_collseg(PointSegment s, PointSegment t){ return geometry_functions::collinear(s,t); }
bool rhs_collseg(PointSegment s, PointSegment t){
    return std::abs(cross3(s.getFirst(), s.getSecond(), t.getFirst())) < tol() && std::abs(cross3(s.getFirst(), s.getSecond(), t.getSecond())) < tol();
}
double lhs_norm(Point a){ return delynoi_utilities::norm(a); }
double rhs_norm(Point a){ return std::sqrt(a.getX()*a.getX() + a.getY()*a.getY()); }
double lhs_sq(Point a){ return delynoi_utilities::squareNorm(a); }
double rhs_sq(Point a){ return a.getX()*a.getX() + a.getY()*a.getY(); }
double lhs_sqm(Point a){ return a.squareNorm(); }
double rhs_sqm(Point a){ return a.getX()*a.getX() + a.getY()*a.getY(); }
Point lhs_minus(Point a, Point b){ return a - b; }
Point rhs_minus(Point a, Point b){ return Point(a.getX()-b.getX(), a.getY()-b.getY()); }
// clockwise means negative signed area; reversing makes it counter-clockwise
bool lhs_cw(Polygon q, std::vector<Point>& p){ assume(q.numberOfSides() > 0); return q.isClockwise(p); }
bool rhs_cw(Polygon q, std::vector<Point>& p){ assume(q.numberOfSides() > 0); return shoelace(q.getPoints(), p) < 0; }
std::vector<int> lhs_fix(Polygon q, std::vector<Point>& p){ assume(q.numberOfSides() > 0); q.fixCCW(p); return q.getPoints(); }
std::vector<int> rhs_fix(Polygon q, std::vector<Point>& p){
    assume(q.numberOfSides() > 0);
    std::vector<int> v = q.getPoints();
    if (shoelace(v, p) < 0) std::reverse(v.begin(), v.end());
    return v;
}
// centroid and average of the vertices
Point lhs_centroid(Polygon q, std::vector<Point>& p){ assume(!q.centroid.isValid()); return q.getCentroid(p); }
Point rhs_centroid(Polygon q, std::vector<Point>& p){
    assume(!q.centroid.isValid());
    double x = 0, y = 0; std::vector<int> ix = q.getPoints(); int n = ix.size();
    double A = shoelace(ix, p);
    for (int i=0;i<n;i++){
        Point a = p[ix[i]], b = p[ix[(i+1)%n]];
        double c = a.getX()*b.getY() - b.getX()*a.getY();
        x += (a.getX()+b.getX())*c; y += (a.getY()+b.getY())*c;
    }
    return Point(x/A/6, y/A/6);
}
Point lhs_average(Polygon q, std::vector<Point>& p){ return q.getAverage(p); }
Point rhs_average(Polygon q, std::vector<Point>& p){
    double x = 0, y = 0; std::vector<int> ix = q.getPoints(); int n = ix.size();
    for (int i=0;i<n;i++){ x += p[ix[i]].getX(); y += p[ix[i]].getY(); }
    return Point(x/n, y/n);
}
std::vector<Point> lhs_vertices(Polygon q, std::vector<Point>& p){ return q.getPoints(p); }
std::vector<Point> rhs_vertices(Polygon q, std::vector<Point>& p){
    std::vector<Point> v; for (int i : q.getPoints()) v.push_back(p[i]); return v;
}
void lhs_edges(Polygon q, std::vector<IndexSegment>& s){ q.getSegments(s); } // + C18
void rhs_edges(Polygon q, std::vector<IndexSegment>& s){
    std::vector<int> ix = q.getPoints(); int n = ix.size();
    for (int i=0;i<n;i++) s.push_back(IndexSegment(ix[i], ix[(i+1)%n]));
}
bool lhs_convex(Polygon q, std::vector<Point>& p){ return q.isConvex(p); }
bool rhs_convex(Polygon q, std::vector<Point>& p){
    std::vector<int> ix = q.getPoints(); int n = ix.size();
    double first = cross3(p[ix[0]], p[ix[1]], p[ix[2]]);
    for (int i=1;i<n;i++){
        double turn = cross3(p[ix[i]], p[ix[(i+1)%n]], p[ix[(i+2)%n]]);
        if (first == 0) first = turn;
        if (first*turn < 0) return false;
    }
    return true;
}
double lhs_longest(Polygon q, std::vector<Point>& p){ return q.getMaxDistance(p); }
double rhs_longest(Polygon q, std::vector<Point>& p){
    std::vector<int> ix = q.getPoints(); int n = ix.size();
    double m = LLONG_MIN;
    for (int i=0;i<n;i++){ double d = std::sqrt(dist2(p[ix[i]], p[ix[(i+1)%n]])); if (d > m) m = d; }
    return m;
}
bool lhs_vertex(Polygon q, int i){ return q.isVertex(i); }
bool rhs_vertex(Polygon q, int i){ std::vector<int> v = q.getPoints(); bool f = false; for (int x : v) if (x == i) f = true; return f; }
int lhs_sides(Polygon q){ return q.numberOfSides(); }
int rhs_sides(Polygon q){ return q.getPoints().size(); }
// a side joins the places of two neighbouring vertices, the last and the first too
bool lhs_hasSide(Polygon q, IndexSegment s){ return q.containsEdge(s); }
bool rhs_hasSide(Polygon q, IndexSegment s){
    std::vector<int> v = q.getPoints(); int n = v.size();
    int i = utilities::indexOf(v, s.getFirst()), j = utilities::indexOf(v, s.getSecond());
    if (i < 0 || j < 0) return false;
    int d = i < j ? j - i : i - j;
    return d == 1 || d == n - 1;
}
