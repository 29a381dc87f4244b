// @ C21
// USE outline:Polygon::isConvex outline:Polygon::getAverage outline:Triangle::Triangle outline:Polygon::fixCCW
#include "contracts.h"
#include <delynoi/triangulation/CenterTriangulationGenerator.h>
#include <delynoi/triangulation/EarTriangulationGenerator.h>
#include <delynoi/triangulation/DelaunayTriangulationGenerator.h>
static Triangle tri(int a, int b, int c, std::vector<Point>& points){
    std::vector<int> v; v.push_back(a); v.push_back(b); v.push_back(c); return Triangle(v, points);
}
// the center scheme: the average of the corners is added to the points, and joined to every side in order
std::vector<Triangle> lhs_tg_center(Polygon p, std::vector<Point>& points){ return CenterTriangulationGenerator().triangulate(p, points); }
std::vector<Triangle> rhs_tg_center(Polygon q, std::vector<Point>& points){
    Polygon p = q;
    if (!p.isConvex(points)) throw std::invalid_argument("");
    std::vector<Triangle> out; std::vector<int> r = p.getPoints(); int c = points.size();
    points.push_back(p.getAverage(points));
    for (int i = 0; i < (int) r.size(); i++) out.push_back(tri(r[i], i + 1 < (int) r.size() ? r[i + 1] : r[0], c, points));
    return out;
}
// USE outline:Triangle::Triangle outline:Polygon::fixCCW outline:Polygon::containsPoint outline:delynoi_utilities::orientation outline:Polygon::inEdges outline:Polygon::isVertex
// the ear scheme: of the corners still left, the first that turns left and whose triangle holds none of the others is cut,
// until three are left; nothing more is cut when no corner qualifies
static Triangle cut(std::vector<int>& l, std::vector<Point>& points){
    int n = l.size();
    if (n < 3) return Triangle();
    if (n == 3){ Triangle t = tri(l[0], l[1], l[2], points); l.clear(); return t; }
    for (int i = 0; i < n; i++){
        int a = l[(n + i - 1) % n], b = l[i % n], c = l[(n + i + 1) % n];
        Triangle t = tri(a, b, c, points);
        bool taken = false;
        for (int j = 0; j < n; j++) taken = taken || (!t.isVertex(l[j]) && t.containsPoint(points, points[l[j]]));
        if (!(delynoi_utilities::orientation(points[a], points[b], points[c]) > 0) || taken) continue;
        l.erase(l.begin() + i); return t;
    }
    return Triangle();
}
std::vector<Triangle> lhs_tg_ear(Polygon p, std::vector<Point>& points){ return EarTriangulationGenerator().triangulate(p, points); }
std::vector<Triangle> rhs_tg_ear(Polygon p, std::vector<Point>& points){
    std::vector<Triangle> out; Polygon q = p; q.fixCCW(points);
    std::vector<int> l = q.getPoints();
    while (l.size() >= 3){ Triangle t = cut(l, points); if (t.getPoints().empty()) break; out.push_back(t); }
    return out;
}
// USE outline:Triangle::Triangle outline:TriangleDelaunayGenerator::TriangleDelaunayGenerator outline:TriangleDelaunayGenerator::getConstrainedDelaunayTriangulation outline:Region::Region
// the Delaunay scheme: the constrained triangulation of the polygon, its corners named by their place in the list of points
std::vector<Triangle> lhs_tg_delaunay(Polygon p, std::vector<Point>& points){ return DelaunayTriangulationGenerator().triangulate(p, points); }
std::vector<Triangle> rhs_tg_delaunay(Polygon q, std::vector<Point>& points){
    Polygon p = q; Region r(p, points); TriangleDelaunayGenerator g(points, r); Mesh<Triangle> m = g.getConstrainedDelaunayTriangulation();
    std::vector<Triangle> out;
    for (int k = 0; k < (int) m.getPolygons().size(); k++){
        std::vector<int> v;
        for (int i = 0; i < (int) m.getPolygons()[k].getPoints().size(); i++){
            Point x = m.getPoint(m.getPolygons()[k].getPoints()[i]);
            int at = 0;
            while (at < (int) points.size() && !(points[at] == x)) at++;
            if (at == (int) points.size()) points.push_back(x);
            v.push_back(at);
        }
        out.push_back(Triangle(v, points));
    }
    return out;
}
// USE
// a triangle needs no triangulation
std::vector<Triangle> lhs_tg_triangle(Triangle t, std::vector<Point>& points){ CenterTriangulationGenerator g; TriangulationGenerator& b = g; return b.triangulate(t, points); }
std::vector<Triangle> rhs_tg_triangle(Triangle t, std::vector<Point>& points){ return std::vector<Triangle>(1, t); }
void lhs_tg_integrity(std::vector<int>& v){ delynoi_utilities::checkTriangleIntegrity(v); }
void rhs_tg_integrity(std::vector<int>& v){ if (v.size() != 3) throw std::invalid_argument(""); if (v[0] == v[1] || v[1] == v[2] || v[0] == v[2]) throw std::invalid_argument(""); }
// the indices 0 .. n-1 are appended
void lhs_tg_trivial(std::vector<int>& v, int n){ delynoi_utilities::TrivialIndexVector(v, n); }
void rhs_tg_trivial(std::vector<int>& v, int n){ int k = 0; while (k < n){ v.push_back(k); ++k; } }
// points of an arc, from its first angle (in degrees) to its last in equal steps
std::vector<Point> lhs_tg_arc(Point c, double r, double a, double b){ return delynoi_utilities::generateArcPoints(c, r, a, b); }
std::vector<Point> rhs_tg_arc(Point c, double r, double a, double b){
    std::vector<Point> out; int n = DelynoiConfig::instance()->getDiscretizationGrade();
    for (int i = 0; i < n + 1; i++){
        double t = (a + (b - a) / n * i) * M_PI / 180;
        out.push_back(Point(c.getX() + r * std::cos(t), c.getY() + r * std::sin(t)));
    }
    return out;
}
