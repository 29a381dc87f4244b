// @ C16
#include "contracts.h"
#include <delynoi/models/neighbourhood/SegmentMap.h>
#include <delynoi/models/neighbourhood/PointMap.h>
#include <delynoi/models/neighbourhood/EdgeData.h>
#include <delynoi/voronoi/structures/PointData.h>
#include <delynoi/models/Mesh.h>
// the segment map keeps, per undirected segment, the first element registered and the latest one after it (-1: none)
void lhs_nb_seg(SegmentMap& m, IndexSegment s, int p){ m.insert(s, p); }
void rhs_nb_seg(SegmentMap& m, IndexSegment s, int p){
    if (m.map.find(s) != m.map.end()) m.map.at(s).n2 = p;
    else { NeighboursBySegment n; n.n1 = p; n.n2 = -1; m.map[s] = n; }
}
void lhs_nb_segPair(SegmentMap& m, IndexSegment s, NeighboursBySegment n){ m.insert(s, n); } // + C19
void rhs_nb_segPair(SegmentMap& m, IndexSegment s, NeighboursBySegment n){ m.map[s] = n; }
NeighboursBySegment lhs_nb_segGet(SegmentMap& m, IndexSegment s){ return m.get(s); } // + C19
NeighboursBySegment rhs_nb_segGet(SegmentMap& m, IndexSegment s){ return m.map.at(s); }
bool lhs_nb_segHas(SegmentMap& m, IndexSegment s){ return m.containsSegment(s); }
bool rhs_nb_segHas(SegmentMap& m, IndexSegment s){ return m.map.count(s) > 0; }
int lhs_nb_segSize(SegmentMap& m){ return m.size(); }
int rhs_nb_segSize(SegmentMap& m){ return m.map.size(); }
// a history: two elements on one side of a fresh map, asked for in either direction
NeighboursBySegment lhs_nb_two(int a, int b, int p, int q){ SegmentMap m; m.insert(IndexSegment(a,b), p); m.insert(IndexSegment(b,a), q); return m.get(IndexSegment(a,b)); }
NeighboursBySegment rhs_nb_two(int a, int b, int p, int q){ return NeighboursBySegment(p, q); }
NeighboursBySegment lhs_nb_one(int a, int b, int p){ SegmentMap m; m.insert(IndexSegment(a,b), p); return m.get(IndexSegment(b,a)); }
NeighboursBySegment rhs_nb_one(int a, int b, int p){ return NeighboursBySegment(p, -1); }
int lhs_nb_twoSize(int a, int b, int p, int q){ SegmentMap m; m.insert(IndexSegment(a,b), p); m.insert(IndexSegment(b,a), q); return m.size(); }
int rhs_nb_twoSize(int a, int b, int p, int q){ return 1; }
bool lhs_nb_hasAfter(int a, int b, int c, int d, int p){ SegmentMap m; m.insert(IndexSegment(a,b), p); return m.containsSegment(IndexSegment(c,d)); }
bool rhs_nb_hasAfter(int a, int b, int c, int d, int p){ return (a==c && b==d) || (a==d && b==c); }
// the point map keeps, per point, every element registered, in order
void lhs_nb_pt(PointMap& m, Point p, int e){ m.insert(p, e); } // + C19
void rhs_nb_pt(PointMap& m, Point p, int e){
    if (m.map.find(p) == m.map.end()){ NeighboursByPoint n; m.map.insert(std::make_pair(p, n)); }
    m.map.at(p).neighbours.push_back(e);
}
void lhs_nb_ptList(PointMap& m, Point& p, std::vector<int>& e){ m.insert(p, e); }
void rhs_nb_ptList(PointMap& m, Point& p, std::vector<int>& e){
    if (m.map.find(p) == m.map.end()){ NeighboursByPoint n; m.map.insert(std::make_pair(p, n)); }
    NeighboursByPoint& n = m.map.at(p); n.neighbours.insert(n.neighbours.end(), e.begin(), e.end());
}
std::vector<int> lhs_nb_ptGet(PointMap& m, Point p){ return m.get(p).getNeighbours(); }
std::vector<int> rhs_nb_ptGet(PointMap& m, Point p){ return m.map.at(p).neighbours; }
int lhs_nb_ptSize(PointMap& m){ return m.size(); }
int rhs_nb_ptSize(PointMap& m){ return m.map.size(); }
std::vector<int> lhs_nb_ptTwo(Point p, int e, int f){ PointMap m; m.insert(p, e); m.insert(p, f); return m.get(p).getNeighbours(); }
std::vector<int> rhs_nb_ptTwo(Point p, int e, int f){ std::vector<int> v = {e, f}; return v; }
// the records themselves
std::vector<int> lhs_nb_np0(){ NeighboursByPoint n; return n.getNeighbours(); }
std::vector<int> rhs_nb_np0(){ std::vector<int> v; return v; }
std::vector<int> lhs_nb_np1(int a){ NeighboursByPoint n(a); return n.getNeighbours(); }
std::vector<int> rhs_nb_np1(int a){ std::vector<int> v; v.push_back(a); return v; }
std::vector<int> lhs_nb_npv(std::vector<int> a){ NeighboursByPoint n(a); return n.getNeighbours(); }
std::vector<int> rhs_nb_npv(std::vector<int> a){ return a; }
void lhs_nb_npAdd(NeighboursByPoint& n, int a){ n.add(a); }
void rhs_nb_npAdd(NeighboursByPoint& n, int a){ n.neighbours.push_back(a); }
void lhs_nb_npIns(NeighboursByPoint& n, std::vector<int> a){ n.insert(a); }
void rhs_nb_npIns(NeighboursByPoint& n, std::vector<int> a){ for (int i=0;i<a.size();i++) n.neighbours.push_back(a[i]); }
std::vector<int> lhs_nb_npC(const NeighboursByPoint n){ return n.getNeighbours(); }
std::vector<int> rhs_nb_npC(const NeighboursByPoint n){ return n.neighbours; }
std::vector<int> lhs_nb_ns0(){ NeighboursBySegment n; return {n.getFirst(), n.getSecond()}; }
std::vector<int> rhs_nb_ns0(){ return {-1, -1}; }
std::vector<int> lhs_nb_ns1(int a){ NeighboursBySegment n(a); return {n.getFirst(), n.getSecond()}; }
std::vector<int> rhs_nb_ns1(int a){ return {a, -1}; }
std::vector<int> lhs_nb_ns2(int a, int b){ NeighboursBySegment n(a, b); return {n.getFirst(), n.getSecond()}; } // + C19
std::vector<int> rhs_nb_ns2(int a, int b){ return {a, b}; }
std::vector<int> lhs_nb_nsP(Pair<int> p){ NeighboursBySegment n(p); return {n.getFirst(), n.getSecond()}; }
std::vector<int> rhs_nb_nsP(Pair<int> p){ return {p.first, p.second}; }
void lhs_nb_nsSet(NeighboursBySegment& n, int a){ n.setNeighbour(a); }
void rhs_nb_nsSet(NeighboursBySegment& n, int a){ n.n2 = a; }
void lhs_nb_nsF(NeighboursBySegment& n, int a){ n.setFirst(a); }
void rhs_nb_nsF(NeighboursBySegment& n, int a){ n.n1 = a; }
void lhs_nb_nsS(NeighboursBySegment& n, int a){ n.setSecond(a); }
void rhs_nb_nsS(NeighboursBySegment& n, int a){ n.n2 = a; }
void lhs_nb_edge(EdgeData& e, int t){ e.setTriangle(t); } // + C19
void rhs_nb_edge(EdgeData& e, int t){ if (e.t1 == -1) e.t1 = t; else e.t2 = t; }
void lhs_nb_edgeNew(EdgeData& e, int a, int b){ e = EdgeData(a, b); } // + C19
void rhs_nb_edgeNew(EdgeData& e, int a, int b){ e.p1 = a; e.p2 = b; e.t1 = -1; e.t2 = -1; }
// a point remembers its first edge, and any boundary edge over that
void lhs_nb_pd(PointData& d, int e, int marker){ d.setEdge(e, marker); } // + C19
void rhs_nb_pd(PointData& d, int e, int marker){ if (marker == 1) d.edge = e; else if (d.edge == -1) d.edge = e; }
void lhs_nb_pdNew(PointData& d, int p){ d = PointData(p); } // + C19
void rhs_nb_pdNew(PointData& d, int p){ d.point = p; d.edge = -1; }
// a mesh hands out what it was made of
UniqueList<Point> lhs_nb_mPoints(Mesh<Polygon>& m){ return m.getPoints(); } // + C19
UniqueList<Point> rhs_nb_mPoints(Mesh<Polygon>& m){ return m.points; }
UniqueList<Point> lhs_nb_mcPoints(const Mesh<Polygon>& m){ return m.getPoints(); }
UniqueList<Point> rhs_nb_mcPoints(const Mesh<Polygon>& m){ return m.points; }
std::vector<Polygon> lhs_nb_mPolys(Mesh<Polygon>& m){ return m.getPolygons(); } // + C19
std::vector<Polygon> rhs_nb_mPolys(Mesh<Polygon>& m){ return m.polygons; }
std::vector<Polygon> lhs_nb_mcPolys(const Mesh<Polygon>& m){ return m.getPolygons(); }
std::vector<Polygon> rhs_nb_mcPolys(const Mesh<Polygon>& m){ return m.polygons; }
Polygon lhs_nb_mPoly(Mesh<Polygon>& m, int i){ return m.getPolygon(i); }
Polygon rhs_nb_mPoly(Mesh<Polygon>& m, int i){ return m.polygons[i]; }
Point lhs_nb_mPoint(Mesh<Polygon>& m, int i){ return m.getPoint(i); }
Point rhs_nb_mPoint(Mesh<Polygon>& m, int i){ return m.points.list[i]; }
NeighboursBySegment lhs_nb_mNeigh(Mesh<Polygon>& m, IndexSegment s){ return m.getNeighbours(s); } // + C19
NeighboursBySegment rhs_nb_mNeigh(Mesh<Polygon>& m, IndexSegment s){ return m.edges->map.at(s); }
// and the constructors take over points (each once), elements and maps
void lhs_nb_mNew(Mesh<Polygon>& o, std::vector<Point>& p, std::vector<Polygon>& e, SegmentMap* s, PointMap* q){ o = Mesh<Polygon>(p, e, s, q); } // + C19
void rhs_nb_mNew(Mesh<Polygon>& o, std::vector<Point>& p, std::vector<Polygon>& e, SegmentMap* s, PointMap* q){
    UniqueList<Point> u; for (int i=0;i<p.size();i++) u.push_back(p[i]);
    o.points = u; o.polygons = e; o.edges = s; o.pointMap = q;
}
void lhs_nb_mNewU(Mesh<Polygon>& o, UniqueList<Point>& p, std::vector<Polygon>& e, SegmentMap* s, PointMap* q){ o = Mesh<Polygon>(p, e, s, q); } // + C19
void rhs_nb_mNewU(Mesh<Polygon>& o, UniqueList<Point>& p, std::vector<Polygon>& e, SegmentMap* s, PointMap* q){ o.points = p; o.polygons = e; o.edges = s; o.pointMap = q; }
void lhs_nb_mCopy(Mesh<Polygon>& o, Mesh<Polygon> m){ Mesh<Polygon> c(m); o = c; }
void rhs_nb_mCopy(Mesh<Polygon>& o, Mesh<Polygon> m){ o.points = m.points; o.polygons = m.polygons; o.edges = m.edges; o.pointMap = m.pointMap; }
int lhs_nb_mEmpty(int x){ Mesh<Polygon> m; return m.getSegments()->size() + m.getPointMap()->size() + m.getPoints().size() + m.getPolygons().size(); }
int rhs_nb_mEmpty(int x){ return 0; }
