// @ C03
#include "contracts.h"
#include <delynoi/models/basic/Segment.h>
static bool between(double v, double a, double b){
    return ((v >= a || near(v,a)) && (v <= b || near(v,b))) || ((v >= b || near(v,b)) && (v <= a || near(v,a)));
}
static bool onSegment(Point q, Point a, Point b){
    return between(q.getX(), a.getX(), b.getX()) && between(q.getY(), a.getY(), b.getY()) && std::abs(cross3(a,b,q)) < tol();
}
static double angle(Point a, Point b){
    double t = std::atan2(b.getY()-a.getY(), b.getX()-a.getX());
    if (!(t > 0)) t = t + 2*M_PI;
    return t*180/M_PI;
}
bool lhs_pcontains(PointSegment s, Point q){ return s.contains(q); }
bool rhs_pcontains(PointSegment s, Point q){ return onSegment(q, s.getFirst(), s.getSecond()); }
bool lhs_icontains(IndexSegment s, std::vector<Point>& p, Point q){ return s.contains(p, q); }
bool rhs_icontains(IndexSegment s, std::vector<Point>& p, Point q){ return onSegment(q, p[s.getFirst()], p[s.getSecond()]); }
bool lhs_icontainsS(IndexSegment s, std::vector<Point>& p, IndexSegment o){ return s.contains(p, o); }
bool rhs_icontainsS(IndexSegment s, std::vector<Point>& p, IndexSegment o){
    return onSegment(p[o.getSecond()], p[s.getFirst()], p[s.getSecond()]) && onSegment(p[o.getFirst()], p[s.getFirst()], p[s.getSecond()]);
}
bool lhs_contained(IndexSegment s, std::vector<Point>& p, PointSegment o){ return s.isContained(o, p); }
bool rhs_contained(IndexSegment s, std::vector<Point>& p, PointSegment o){
    return onSegment(p[s.getSecond()], o.getFirst(), o.getSecond()) && onSegment(p[s.getFirst()], o.getFirst(), o.getSecond());
}
// both ends swapped: same answer
bool lhs_swap(std::vector<Point>& p, int a, int b, Point q){ return IndexSegment(a,b).contains(p, q); }
bool rhs_swap(std::vector<Point>& p, int a, int b, Point q){ return IndexSegment(b,a).contains(p, q); }
double lhs_plen(PointSegment s){ return s.length(); }
double rhs_plen(PointSegment s){ return std::sqrt(dist2(s.getFirst(), s.getSecond())); }
double lhs_ilen(IndexSegment s, std::vector<Point>& p){ return s.length(p); }
double rhs_ilen(IndexSegment s, std::vector<Point>& p){ return std::sqrt(dist2(p[s.getFirst()], p[s.getSecond()])); }
double lhs_pang(PointSegment s){ return s.cartesianAngle(); }
double rhs_pang(PointSegment s){ return angle(s.getFirst(), s.getSecond()); }
double lhs_iang(IndexSegment s, std::vector<Point>& p){ return s.cartesianAngle(p); }
double rhs_iang(IndexSegment s, std::vector<Point>& p){ return angle(p[s.getFirst()], p[s.getSecond()]); }
Point lhs_mid(IndexSegment s, std::vector<Point>& p){ return s.middlePoint(p); }
Point rhs_mid(IndexSegment s, std::vector<Point>& p){
    Point a = p[s.getFirst()], b = p[s.getSecond()];
    return Point(a.getX() + (b.getX()-a.getX())/2, a.getY() + (b.getY()-a.getY())/2);
}
// Cramer's rule for a + t(b-a) = c + s(d-c)
static bool meet(Point a, Point b, Point c, Point d, bool both, Point& where){
    double rx = b.getX()-a.getX(), ry = b.getY()-a.getY(), qx = d.getX()-c.getX(), qy = d.getY()-c.getY();
    double den = rx*qy - ry*qx;
    double t = ((c.getX()-a.getX())*qy - (c.getY()-a.getY())*qx)/den;
    double s = ((c.getX()-a.getX())*ry - (c.getY()-a.getY())*rx)/den;
    bool in = t >= -tol() && t <= 1+tol();
    if (both) in = in && s >= -tol() && s <= 1+tol();
    if (in){ where.setX(a.getX() + t*rx); where.setY(a.getY() + t*ry); }
    return in;
}
bool lhs_interI(IndexSegment s, std::vector<Point>& p, IndexSegment o, Point& where){ return s.intersection(p, o, where); }
bool rhs_interI(IndexSegment s, std::vector<Point>& p, IndexSegment o, Point& where){ return meet(p[s.getFirst()], p[s.getSecond()], p[o.getFirst()], p[o.getSecond()], true, where); }
bool lhs_interP(IndexSegment s, std::vector<Point>& p, PointSegment o, Point& where){ return s.intersection(p, o, where); }
bool rhs_interP(IndexSegment s, std::vector<Point>& p, PointSegment o, Point& where){ return meet(p[s.getFirst()], p[s.getSecond()], o.getFirst(), o.getSecond(), true, where); }
bool lhs_interInf(PointSegment z, Point a, Point b, Point c, Point d, Point& where){ return z.intersectionInfinite(a,b,c,d,where); }
bool rhs_interInf(PointSegment z, Point a, Point b, Point c, Point d, Point& where){ return meet(a,b,c,d,false,where); }
bool lhs_isCCW(IndexSegment s, std::vector<Point>& p, Point c){ return s.isCCW(p, c); }
bool rhs_isCCW(IndexSegment s, std::vector<Point>& p, Point c){ return cross3(p[s.getFirst()], p[s.getSecond()], c) > 0; }
void lhs_orderCCW(IndexSegment& s, std::vector<Point>& p, Point c){ s.orderCCW(p, c); }
void rhs_orderCCW(IndexSegment& s, std::vector<Point>& p, Point c){
    if (cross3(p[s.getFirst()], p[s.getSecond()], c) <= 0){ int a = s.p1, b = s.p2; s.p1 = b; s.p2 = a; }
}
std::pair<int,int> lhs_add(IndexSegment s, int o){ IndexSegment r = s.add(o); return std::make_pair(r.getFirst(), r.getSecond()); }
std::pair<int,int> rhs_add(IndexSegment s, int o){ return std::make_pair(s.getFirst()+o, s.getSecond()+o); }
bool lhs_ivert(IndexSegment s, int v){ return s.isVertex(v); }
bool rhs_ivert(IndexSegment s, int v){ return s.getFirst() == v || s.getSecond() == v; }
bool lhs_pvert(PointSegment s, Point v){ return s.isVertex(v); }
bool rhs_pvert(PointSegment s, Point v){ return samePlace(s.getFirst(), v) || samePlace(s.getSecond(), v); }
Point lhs_first(Point a, Point b){ return PointSegment(a,b).getFirst(); }
Point rhs_first(Point a, Point b){ return a; }
Point lhs_second(Point a, Point b){ return PointSegment(a,b).getSecond(); }
Point rhs_second(Point a, Point b){ return b; }
int lhs_ifirst(int a, int b){ return IndexSegment(a,b).getFirst(); }
int rhs_ifirst(int a, int b){ return a; }
int lhs_isecond(int a, int b){ return IndexSegment(a,b).getSecond(); }
int rhs_isecond(int a, int b){ return b; }
bool lhs_c_icontains(IndexSegment s, std::vector<Point>& p, Point q){ return s.contains(p, q); }
bool rhs_c_icontains(IndexSegment s, std::vector<Point>& p, Point q){ return contract::IndexSegment__contains(s, p, q); }
bool lhs_c_intersection(IndexSegment s, std::vector<Point>& p, IndexSegment o, Point& w){ return s.intersection(p, o, w); }
bool rhs_c_intersection(IndexSegment s, std::vector<Point>& p, IndexSegment o, Point& w){ return contract::IndexSegment__intersection(s, p, o, w); }
bool lhs_c_pointEq(Point a, Point b){ return a == b; }
bool rhs_c_pointEq(Point a, Point b){ return contract::Point__operatorEQ(a, b); }
