// @ C04
#include "spec.h"
#include <delynoi/models/polygon/Polygon.h>
#include <delynoi/utilities/convexHull.h>
struct LeftToRight { bool operator()(const Point& a, const Point& b) const { return a.getX() < b.getX() || (a.getX() == b.getX() && a.getY() < b.getY()); } };
// upper and lower chain of the points sorted from left to right: every turn is strictly clockwise (upper) or counter-clockwise (lower)
static void chains(std::vector<Point>& p, std::vector<Point>& up, std::vector<Point>& low){
    std::sort(p.begin(), p.end(), LeftToRight());
    for (int i=0;i<p.size();i++){
        while (up.size() > 1 && cross3(up[up.size()-2], up.back(), p[i]) >= 0) up.pop_back();
        while (low.size() > 1 && cross3(low[low.size()-2], low.back(), p[i]) <= 0) low.pop_back();
        up.push_back(p[i]); low.push_back(p[i]);
    }
}
void lhs_h_hull(std::vector<Point> p, std::vector<Point>& u, std::vector<Point>& l){ convex::convexHull(p, u, l); }
void rhs_h_hull(std::vector<Point> p, std::vector<Point>& u, std::vector<Point>& l){ chains(p, u, l); }
// antipodal pairs: walk the upper chain forwards and the lower chain backwards, along the edge with the smaller slope angle
static std::vector<std::pair<Point,Point> > antipodal(std::vector<Point> p){
    std::vector<Point> u, l; chains(p, u, l);
    std::vector<std::pair<Point,Point> > r;
    int i = 0, j = l.size() - 1;
    while (i < u.size()-1 || j > 0){
        r.push_back(std::make_pair(u[i], l[j]));
        if (i == u.size()-1) j--;
        else if (j == 0) i++;
        else if ((u[i+1].getY()-u[i].getY())*(l[j].getX()-l[j-1].getX()) > (l[j].getY()-l[j-1].getY())*(u[i+1].getX()-u[i].getX())) i++;
        else j--;
    }
    return r;
}
std::vector<std::pair<Point,Point> > lhs_h_pairs(std::vector<Point> p){ return convex::rotatingCalipers(p); }
std::vector<std::pair<Point,Point> > rhs_h_pairs(std::vector<Point> p){ return antipodal(p); }
double lhs_h_diameter(Polygon q, std::vector<Point> p){ assume(q.diameter < 0); return q.getDiameter(p); }
double rhs_h_diameter(Polygon q, std::vector<Point> p){
    assume(q.diameter < 0);
    std::vector<Point> v; for (int i : q.getPoints()) v.push_back(p[i]);
    std::vector<std::pair<Point,Point> > a = antipodal(v); double d = -1;
    for (int i=0;i<a.size();i++){ double x = std::sqrt(dist2(a[i].first, a[i].second)); if (x > d) d = x; }
    return d;
}
