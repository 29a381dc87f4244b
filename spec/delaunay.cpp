// @ C18 C19
// USE outline:UniqueList<int>::push_back outline:UniqueList<Point>::push_back outline:UniqueList<Point>::push_list outline:EdgeData::setTriangle outline:PointData::setEdge outline:Triangle::Triangle outline:Region::getSegments outline:Region::getRegionPoints outline:UniqueList<Point>::indexOf outline:Hole::getCenter outline:PointMap::insert outline:Triangle::getPoints outline:Polygon::Polygon
#include "contracts.h"
#include <delynoi/voronoi/TriangleDelaunayGenerator.h>
#include <delynoi/voronoi/TriangleVoronoiGenerator.h>
// the reference request: what is handed to Triangle and what is made of its answer
struct Kernel {
    std::vector<Point> points; std::vector<EdgeData> edges; std::vector<PointData> data;
    UniqueList<int> real; UniqueList<Point> centres; std::vector<Triangle> triangles;
    std::unordered_map<Key, int, KeyHasher> index; std::unordered_map<IndexSegment,NeighboursBySegment,SegmentHasher> sides;
};
static void request(Kernel& k, std::vector<Point> seeds, Region r, char* switches, std::vector<PointSegment> extra){
    std::vector<Point> ring = r.getRegionPoints();
    UniqueList<Point> all; all.push_list(seeds); std::vector<int> at = all.push_list(ring);
    for (PointSegment s : extra){ std::vector<Point> ends; ends.push_back(s.getFirst()); ends.push_back(s.getSecond()); all.push_list(ends); }
    std::vector<IndexSegment> sides; r.getSegments(sides);
    std::vector<double> xy, attr, hole; std::vector<int> seg;
    for (int i=0;i<all.size();i++){ xy.push_back(all[i].getX()); xy.push_back(all[i].getY()); attr.push_back(0); }
    for (int i=0;i<sides.size();i++){ seg.push_back(at[sides[i].getFirst()]); seg.push_back(at[sides[i].getSecond()]); }
    for (int i=0;i<extra.size();i++){ seg.push_back(all.indexOf(extra[i].getFirst())); seg.push_back(all.indexOf(extra[i].getSecond())); }
    std::vector<Hole> hs = r.getHoles();
    for (int i=0;i<hs.size();i++){ hole.push_back(hs[i].getCenter().getX()); hole.push_back(hs[i].getCenter().getY()); }
    triangulateio in, out;
    in.numberofpoints = all.size(); in.numberofpointattributes = 1; in.numberofsegments = sides.size() + extra.size(); in.numberofholes = hs.size(); in.numberofregions = 0;
    in.pointlist = xy.data(); in.pointattributelist = attr.data(); in.pointmarkerlist = NULL; in.segmentlist = seg.data(); in.segmentmarkerlist = NULL; in.holelist = hole.data();
    out.pointlist = NULL; out.pointattributelist = NULL; out.pointmarkerlist = NULL; out.trianglelist = NULL; out.triangleattributelist = NULL;
    out.segmentmarkerlist = NULL; out.segmentlist = NULL; out.edgelist = NULL; out.edgemarkerlist = NULL;
    triangulate(switches, &in, &out, NULL);
    for (int i=0;i<out.numberofpoints;i++){
        Point p(out.pointlist[2*i], out.pointlist[2*i+1]);
        if (out.pointmarkerlist[i] == 1) p.setBoundary();
        k.points.push_back(p); k.data.push_back(PointData(i));
    }
    for (int i=0;i<out.numberofedges;i++){
        int a = out.edgelist[2*i], b = out.edgelist[2*i+1];
        k.edges.push_back(EdgeData(a, b)); k.index.insert(std::make_pair(Key(a, b), i));
        k.data[a].setEdge(i, out.edgemarkerlist[i]); k.data[b].setEdge(i, out.edgemarkerlist[i]);
    }
    for (int i=0;i<out.numberoftriangles;i++){
        int a = out.trianglelist[3*i], b = out.trianglelist[3*i+1], c = out.trianglelist[3*i+2];
        k.real.push_back(a); k.real.push_back(b); k.real.push_back(c);
        std::vector<int> v; v.push_back(a); v.push_back(b); v.push_back(c);
        Triangle t(v, k.points, k.centres);
        int ab = k.index[Key(a, b)], bc = k.index[Key(b, c)], ca = k.index[Key(c, a)];
        k.edges[ab].setTriangle(i); k.edges[bc].setTriangle(i); k.edges[ca].setTriangle(i);
        k.triangles.push_back(t);
    }
    SegmentMap m;
    for (int i=0;i<k.edges.size();i++) m.insert(IndexSegment(k.edges[i].p1, k.edges[i].p2), NeighboursBySegment(k.edges[i].t1, k.edges[i].t2));
    k.sides = m.getMap();
}
static Kernel answer(TriangleDelaunayGenerator& g){
    DelaunayInfo i = g.getConformingDelaunay(); Kernel k;
    k.points = i.meshPoints; k.edges = i.edges; k.data = i.points; k.real = i.realPoints; k.centres = i.circumcenters; k.triangles = i.triangles; k.index = i.edgeMap;
    k.sides = i.delaunayEdges->getMap();
    return k;
}
Kernel lhs_dl_info(std::vector<Point>& s, Region r){ TriangleDelaunayGenerator g(s, r); return answer(g); }
Kernel rhs_dl_info(std::vector<Point>& s, Region r){ Kernel k; char sw[] = "pzejDQ"; request(k, s, r, sw, std::vector<PointSegment>()); return k; }
// a generator answers each request on its own: what it was asked before does not matter
std::pair<Kernel,Kernel> lhs_dl_again(std::vector<Point>& s, Region r){ // + C17
    TriangleDelaunayGenerator g(s, r); std::pair<Kernel,Kernel> k; k.first = answer(g); k.second = answer(g); return k;
}
std::pair<Kernel,Kernel> rhs_dl_again(std::vector<Point>& s, Region r){
    TriangleDelaunayGenerator g(s, r), h(s, r); std::pair<Kernel,Kernel> k; k.first = answer(g); k.second = answer(h); return k;
}
// the mesh made of an answer
template <typename T> struct View {
    UniqueList<Point> points; std::vector<T> cells; std::unordered_map<IndexSegment,NeighboursBySegment,SegmentHasher> sides; PointMap corners;
};
template <typename T> static View<T> view(const Mesh<T>& m){
    View<T> v; v.points = m.getPoints(); v.cells = m.getPolygons(); v.sides = m.getSegments()->getMap(); v.corners = *m.getPointMap(); return v;
}
template <typename T> static View<T> made(Kernel k){
    View<T> v; SegmentMap m;
    std::vector<int> at = v.points.push_list(k.points);
    for (int i=0;i<k.triangles.size();i++){
        std::vector<int> old = k.triangles[i].getPoints(), c;
        for (int j=0;j<old.size();j++) c.push_back(at[old[j]]);
        for (int j=0;j<c.size();j++) v.corners.insert(v.points[c[j]], i);
        if (c.size() != 3 || c[0] == c[1] || c[1] == c[2] || c[2] == c[0]) throw std::invalid_argument("");
        v.cells.push_back(T(c, v.points.getList()));
    }
    for (int i=0;i<k.edges.size();i++) m.insert(IndexSegment(at[k.edges[i].p1], at[k.edges[i].p2]), NeighboursBySegment(k.edges[i].t1, k.edges[i].t2));
    v.sides = m.getMap();
    return v;
}
View<Triangle> lhs_dl_conforming(std::vector<Point>& s, Region r){ TriangleDelaunayGenerator g(s, r); return view(g.getConformingDelaunayTriangulation()); }
View<Triangle> rhs_dl_conforming(std::vector<Point>& s, Region r){ Kernel k; char sw[] = "pzejDQ"; request(k, s, r, sw, std::vector<PointSegment>()); return made<Triangle>(k); }
View<Triangle> lhs_dl_constrained(std::vector<Point>& s, Region r){ TriangleDelaunayGenerator g(s, r); return view(g.getConstrainedDelaunayTriangulation()); }
View<Triangle> rhs_dl_constrained(std::vector<Point>& s, Region r){ Kernel k; char sw[] = "pzejQ"; request(k, s, r, sw, std::vector<PointSegment>()); return made<Triangle>(k); }
View<Triangle> lhs_dl_restricted(std::vector<Point>& s, Region r, std::vector<PointSegment> e){ TriangleDelaunayGenerator g(s, r); return view(g.getConstrainedDelaunayTriangulation(e)); }
View<Triangle> rhs_dl_restricted(std::vector<Point>& s, Region r, std::vector<PointSegment> e){ Kernel k; char sw[] = "pzejQ"; request(k, s, r, sw, e); return made<Triangle>(k); }
// @ C17
View<Triangle> lhs_dl_thenMesh(std::vector<Point>& s, Region r){ TriangleDelaunayGenerator g(s, r); g.getConformingDelaunay(); return view(g.getConstrainedDelaunayTriangulation()); }
View<Triangle> rhs_dl_thenMesh(std::vector<Point>& s, Region r){ Kernel h, k; char sw[] = "pzejDQ", tw[] = "pzejQ"; request(h, s, r, sw, std::vector<PointSegment>()); request(k, s, r, tw, std::vector<PointSegment>()); return made<Triangle>(k); }
Kernel lhs_dl_thenInfo(std::vector<Point>& s, Region r, std::vector<PointSegment> e){ TriangleDelaunayGenerator g(s, r); g.getConstrainedDelaunayTriangulation(e); return answer(g); }
Kernel rhs_dl_thenInfo(std::vector<Point>& s, Region r, std::vector<PointSegment> e){ Kernel h, k; char sw[] = "pzejQ", tw[] = "pzejDQ"; request(h, s, r, sw, e); made<Triangle>(h); request(k, s, r, tw, std::vector<PointSegment>()); return k; }
View<Triangle> lhs_dl_twice(std::vector<Point>& s, Region r, std::vector<PointSegment> e){ TriangleDelaunayGenerator g(s, r); g.getConstrainedDelaunayTriangulation(e); return view(g.getConformingDelaunayTriangulation()); }
View<Triangle> rhs_dl_twice(std::vector<Point>& s, Region r, std::vector<PointSegment> e){ Kernel h, k; char sw[] = "pzejQ", tw[] = "pzejDQ"; request(h, s, r, sw, e); made<Triangle>(h); request(k, s, r, tw, std::vector<PointSegment>()); return made<Triangle>(k); }
