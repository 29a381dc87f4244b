// @ C20
// USE outline:UniqueList<Point>::push_back
#include "contracts.h"
#include <delynoi/voronoi/DelaunayToVoronoi.h>
#include <delynoi/voronoi/TriangleVoronoiGenerator.h>
struct Cells { UniqueList<Point> points; std::vector<Polygon> cells; SegmentMap sides; PointMap corners; };
// the corner a cell has where it enters triangle t through edge e: the triangle's circumcentre, or the middle of a boundary edge
static int corner(DelaunayInfo& d, int t, int e){
    if (t != -1) return d.triangles[t].getCircumcenterIndex();
    Point m = IndexSegment(d.edges[e].p1, d.edges[e].p2).middlePoint(d.meshPoints);
    m.setBoundary();
    return d.circumcenters.push_back(m);
}
namespace contract { inline int DelaunayToVoronoi__getCircumcenter(DelaunayToVoronoi& self, DelaunayInfo& d, int t, int e){ return corner(d, t, e); } }
int lhs_c_corner(DelaunayToVoronoi self, DelaunayInfo& d, int t, int e){ return self.getCircumcenter(d, t, e); }
int rhs_c_corner(DelaunayToVoronoi self, DelaunayInfo& d, int t, int e){ return contract::DelaunayToVoronoi__getCircumcenter(self, d, t, e); }
// USE outline:corner contract::DelaunayToVoronoi__getCircumcenter outline:UniqueList<int>::push_back outline:UniqueList<Point>::push_back outline:PointMap::insert outline:SegmentMap::insert outline:Triangle::nextEdge outline:Triangle::getCircumcenterIndex outline:Polygon::Polygon outline:Polygon::fixCCW outline:geometry_functions::collinear outline:IndexSegment::middlePoint
// one cell per site, whose corners are met by going around the site from triangle to triangle
static void enter(Cells& c, UniqueList<int>& ring, DelaunayInfo& d, int cell, int to, int from){
    if (to != from){
        c.sides.insert(IndexSegment(from, to), cell);
        ring.push_back(from); c.corners.insert(d.circumcenters[from], cell);
    }
    ring.push_back(to); c.corners.insert(d.circumcenters[to], cell);
}
static Cells voronoi(DelaunayInfo& d){
    Cells c;
    for (int i=0;i<d.realPoints.size();i++){
        int cell = i, site = d.realPoints[i];
        Point centre = d.meshPoints[site];
        EdgeData first = d.edges[d.points[site].edge];
        int ahead = first.t1, behind = first.t2;
        UniqueList<int> ring;
        enter(c, ring, d, i, corner(d, ahead, d.points[site].edge), corner(d, behind, d.points[site].edge));
        EdgeData edge = d.edges[d.triangles[ahead].nextEdge(site, first, d.edgeMap)];
        while (!(edge == first)){
            behind = ahead; ahead = edge.t1 != behind ? edge.t1 : edge.t2;
            int id = d.edgeMap[Key(edge.p1, edge.p2)];
            int to = corner(d, ahead, id);
            enter(c, ring, d, i, to, corner(d, behind, id));
            if (ahead == -1) break;
            edge = d.edges[d.triangles[ahead].nextEdge(site, edge, d.edgeMap)];
        }
        if (edge.t2 == -1){
            int a = ring[0], b = ring[ring.size()-1];
            if (geometry_functions::collinear(d.circumcenters[a], centre, d.circumcenters[b])) c.sides.insert(IndexSegment(b, a), cell);
            else {
                centre.setBoundary();
                int s = d.circumcenters.push_back(centre);
                ring.push_back(s); c.corners.insert(d.circumcenters[s], cell);
                c.sides.insert(IndexSegment(b, s), cell); c.sides.insert(IndexSegment(s, a), cell);
            }
        }
        Polygon p(ring.getList(), d.circumcenters.getList());
        p.fixCCW(d.circumcenters.getList());
        c.cells.push_back(p);
    }
    c.points = d.circumcenters;
    return c;
}
static Cells seen(Mesh<Polygon>& m){ Cells c; c.points = m.getPoints(); c.cells = m.getPolygons(); c.sides = *m.getSegments(); c.corners = *m.getPointMap(); return c; }
Cells lhs_vo_cells(DelaunayInfo& d){ return seen(DelaunayToVoronoi(d).getMesh()); }
Cells rhs_vo_cells(DelaunayInfo& d){ return voronoi(d); }
// USE
// the edge that follows another one around a corner of a triangle joins the corner to the vertex that is on neither end
static bool three(int a, int b, int c){ return a != b && b != c && a != c; }
static Triangle on(Triangle t, int a, int b, int c){ t.points.clear(); t.points.push_back(a); t.points.push_back(b); t.points.push_back(c); return t; }
std::vector<int> lhs_vo_third(Triangle t, int a, int b, int c){
    assume(three(a, b, c)); Triangle u = on(t, a, b, c); std::vector<int> r;
    r.push_back(u.thirdPoint(EdgeData(a, b))); r.push_back(u.thirdPoint(EdgeData(b, a))); r.push_back(u.thirdPoint(EdgeData(b, c)));
    r.push_back(u.thirdPoint(EdgeData(c, b))); r.push_back(u.thirdPoint(EdgeData(c, a))); r.push_back(u.thirdPoint(EdgeData(a, c)));
    return r;
}
std::vector<int> rhs_vo_third(Triangle t, int a, int b, int c){
    assume(three(a, b, c)); std::vector<int> r;
    r.push_back(c); r.push_back(c); r.push_back(a); r.push_back(a); r.push_back(b); r.push_back(b); return r;
}
int lhs_vo_next(Triangle t, int c, EdgeData e, std::unordered_map<Key, int, KeyHasher>& m){ return t.nextEdge(c, e, m); }
int rhs_vo_next(Triangle t, int c, EdgeData e, std::unordered_map<Key, int, KeyHasher>& m){ return m[Key(c, t.thirdPoint(e))]; }
bool lhs_vo_null(Triangle t){ return t.isNull(); }
bool rhs_vo_null(Triangle t){ return t.getPoints().empty(); }
// USE outline:TriangleDelaunayGenerator::TriangleDelaunayGenerator outline:TriangleDelaunayGenerator::getConformingDelaunay outline:TriangleDelaunayGenerator::initializeMesh outline:DelaunayToVoronoi::DelaunayToVoronoi
// the generator's diagram is the one of the conforming triangulation of its arguments, and the triangulation it shows is that one
struct Both { Mesh<Polygon> diagram, triangles; };
Both lhs_vo_gen(std::vector<Point>& s, Region r){ TriangleVoronoiGenerator g(s, r); Both b; b.diagram = g.getMesh(); b.triangles = g.getTriangulation(); return b; }
Both rhs_vo_gen(std::vector<Point>& s, Region r){
    TriangleDelaunayGenerator d(s, r); DelaunayInfo i = d.getConformingDelaunay(); Both b;
    b.triangles = d.initializeMesh<Polygon>();
    DelaunayToVoronoi v(i); b.diagram = v.getMesh(); return b;
}
