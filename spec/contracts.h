// Contracts: what a library function computes, in terms of pure reference functions (namespace opq).
// Each contract is itself compared with the library's source (the lhs_/rhs_ pairs that name it); elsewhere a call
// of the library function may be read through its contract, with the reference functions left uninterpreted.
#ifndef CONTRACTS_H
#define CONTRACTS_H
#include "spec.h"
#include <delynoi/models/polygon/Polygon.h>
#include <delynoi/models/hole/Hole.h>
namespace opq {
    inline bool between(double v, double a, double b){
        return ((v >= a || near(v,a)) && (v <= b || near(v,b))) || ((v >= b || near(v,b)) && (v <= a || near(v,a)));
    }
    // q is within tolerance of the closed segment ab
    inline bool onSegment(double qx, double qy, double ax, double ay, double bx, double by){
        return between(qx, ax, bx) && between(qy, ay, by) && std::abs((bx-ax)*(qy-ay) - (by-ay)*(qx-ax)) < tol();
    }
    // ab and cd have a common point (Cramer's rule, tolerance at the ends)
    inline double den(double ax, double ay, double bx, double by, double cx, double cy, double dx, double dy){ return (bx-ax)*(dy-cy) - (by-ay)*(dx-cx); }
    inline double along(double ax, double ay, double bx, double by, double cx, double cy, double dx, double dy){
        return ((cx-ax)*(dy-cy) - (cy-ay)*(dx-cx))/((bx-ax)*(dy-cy) - (by-ay)*(dx-cx));
    }
    inline double along2(double ax, double ay, double bx, double by, double cx, double cy, double dx, double dy){
        return ((cx-ax)*(by-ay) - (cy-ay)*(bx-ax))/((bx-ax)*(dy-cy) - (by-ay)*(dx-cx));
    }
    inline bool meets(double ax, double ay, double bx, double by, double cx, double cy, double dx, double dy){
        double t = along(ax,ay,bx,by,cx,cy,dx,dy), s = along2(ax,ay,bx,by,cx,cy,dx,dy);
        return t >= -tol() && t <= 1+tol() && s >= -tol() && s <= 1+tol();
    }
    inline bool same(double ax, double ay, double bx, double by){ return near(ax,bx) && near(ay,by); }
    // even-odd rule on the ring, border included
    inline bool onRing(const std::vector<double>& xs, const std::vector<double>& ys, double qx, double qy){
        int n = xs.size(); bool on = false;
        for (int i=0;i<n;i++) if (onSegment(qx, qy, xs[i], ys[i], xs[(i+1)%n], ys[(i+1)%n])) on = true;
        return on;
    }
    inline bool insideRing(const std::vector<double>& xs, const std::vector<double>& ys, double qx, double qy){
        bool odd = false; int n = xs.size(), last = n-1;
        for (int i=0;i<n;i++){
            if (same(xs[i], ys[i], xs[last], ys[last])) continue;
            double ax = xs[i], ay = ys[i], bx = xs[last], by = ys[last];
            bool crosses = (ay <= qy) != (by <= qy);
            if (crosses && ax + (qy-ay)*(bx-ax)/(by-ay) < qx) odd = !odd;
            last = i;
        }
        return odd;
    }
    inline bool inRing(const std::vector<double>& xs, const std::vector<double>& ys, double qx, double qy){
        return insideRing(xs, ys, qx, qy) || onRing(xs, ys, qx, qy);
    }
    // two edges that are not neighbours have a common point; repeated consecutive vertices count once
    inline bool crossing(const std::vector<int>& ix, const std::vector<Point>& p){
        std::vector<int> u;
        for (int i=0;i<ix.size();i++){
            if (u.empty() || !same(p[ix[i]].getX(), p[ix[i]].getY(), p[u.back()].getX(), p[u.back()].getY())) u.push_back(ix[i]);
        }
        while (u.size() > 1 && same(p[u.back()].getX(), p[u.back()].getY(), p[u.front()].getX(), p[u.front()].getY())) u.pop_back();
        int n = u.size();
        std::vector<std::pair<int,int> > e;
        for (int i=0;i<n;i++) e.push_back(std::make_pair(u[i], u[(i+1)%n]));
        for (int i=0;i<n;i++) for (int j=0;j<n;j++){
            if (i == j || j == (i-1+n)%n || j == (i+1)%n) continue;
            Point a = p[e[i].first], b = p[e[i].second], c = p[e[j].first], d = p[e[j].second];
            if (meets(a.getX(), a.getY(), b.getX(), b.getY(), c.getX(), c.getY(), d.getX(), d.getY())) return true;
        }
        return false;
    }
}
static inline std::vector<double> ringX(const std::vector<int>& ix, const std::vector<Point>& p){ std::vector<double> v; for (int i : ix) v.push_back(p[i].getX()); return v; }
static inline std::vector<double> ringY(const std::vector<int>& ix, const std::vector<Point>& p){ std::vector<double> v; for (int i : ix) v.push_back(p[i].getY()); return v; }
static inline std::vector<double> xsOf(const std::vector<Point>& p){ std::vector<double> v; for (const Point& q : p) v.push_back(q.getX()); return v; }
static inline std::vector<double> ysOf(const std::vector<Point>& p){ std::vector<double> v; for (const Point& q : p) v.push_back(q.getY()); return v; }
namespace contract {
    inline bool IndexSegment__contains(IndexSegment& self, const std::vector<Point>& p, Point q){
        Point a = p[self.getFirst()], b = p[self.getSecond()];
        return opq::onSegment(q.getX(), q.getY(), a.getX(), a.getY(), b.getX(), b.getY());
    }
    inline bool IndexSegment__intersection(IndexSegment& self, const std::vector<Point>& p, IndexSegment o, Point& where){
        Point a = p[self.getFirst()], b = p[self.getSecond()], c = p[o.getFirst()], d = p[o.getSecond()];
        if (!opq::meets(a.getX(), a.getY(), b.getX(), b.getY(), c.getX(), c.getY(), d.getX(), d.getY())) return false;
        double t = opq::along(a.getX(), a.getY(), b.getX(), b.getY(), c.getX(), c.getY(), d.getX(), d.getY());
        where.setX(a.getX() + t*(b.getX()-a.getX())); where.setY(a.getY() + t*(b.getY()-a.getY()));
        return true;
    }
    inline bool Point__operatorEQ(Point& self, const Point& o){ return opq::same(self.getX(), self.getY(), o.getX(), o.getY()); }
    inline bool Polygon__containsPoint(Polygon& self, std::vector<Point>& p, Point q){
        std::vector<int> ix = self.getPoints();
        return opq::inRing(ringX(ix, p), ringY(ix, p), q.getX(), q.getY());
    }
    inline bool Polygon__isSelfIntersecting(Polygon& self, std::vector<Point>& p){
        std::vector<int> ix = self.getPoints();
        return opq::crossing(ix, p);
    }
    inline bool Hole__containsPoint(Hole& self, Point q){
        std::vector<Point> r = self.getPoints();
        return opq::inRing(xsOf(r), ysOf(r), q.getX(), q.getY());
    }
}
#endif
