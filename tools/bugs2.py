S='delynoi/src/'; I='delynoi/include/delynoi/'; T=S+'voronoi/TriangleDelaunayGenerator.cpp'
BUGS=[
dict(id='segmap_border_first', property='C16', edits=[(S+'models/neighbourhood/NeighboursBySegment.cpp','void NeighboursBySegment::setNeighbour(int i) {\n    this->n2 = i;','void NeighboursBySegment::setNeighbour(int i) {\n    (this->n1==-1? this->n1 : this->n2) = i;')],
 needs='a segment whose first neighbour is recorded as missing (-1) and which then gets one', breaks='the new neighbour replaces the first record instead of the second',
 demo='''#include <delynoi/models/neighbourhood/SegmentMap.h>
int main(){ SegmentMap m; m.insert(IndexSegment(1,2), -1); m.insert(IndexSegment(2,1), 7); NeighboursBySegment n = m.get(IndexSegment(1,2)); CHECK(n.getFirst()==-1 && n.getSecond()==7); return 0; }'''),
dict(id='pointmap_list_front', property='C16', edits=[(S+'models/neighbourhood/NeighboursByPoint.cpp','this->neighbours.end(), n.begin()','this->neighbours.begin(), n.begin()')],
 needs='a list of elements registered at a point that already has some', breaks='the new elements come before the earlier ones',
 demo='''#include <delynoi/models/neighbourhood/PointMap.h>
int main(){ PointMap m; Point p(1,1); std::vector<int> a={1,2}, b={3}; m.insert(p,a); m.insert(p,b); std::vector<int> r=m.get(p).getNeighbours(); CHECK(r.size()==3 && r[0]==1 && r[2]==3); return 0; }'''),
dict(id='points_kept_between_requests', property='C17', edits=[(T,'    UniqueList<Point> pointList;\n    pointList.push','    static UniqueList<Point> pointList;\n    pointList.push')],
 needs='a request with restricted segments followed by another request to the same generator', breaks='the ends of the segments stay in the point list of every later request',
 demo='''#include <delynoi/voronoi/TriangleDelaunayGenerator.h>
int main(){ std::vector<Point> r={Point(0,0),Point(10,0),Point(10,10),Point(0,10)}, s={Point(5,5)}; Region reg(r); TriangleDelaunayGenerator g(s,reg);
 int n=g.getConstrainedDelaunayTriangulation().getPoints().size(); std::vector<PointSegment> e={PointSegment(Point(2,2),Point(3,2))}; g.getConstrainedDelaunayTriangulation(e);
 CHECK(g.getConstrainedDelaunayTriangulation().getPoints().size()==n); return 0; }'''),
dict(id='boundary_offset', property='C18', edits=[(T,'        in.segmentlist[2*k] = regionIndex[segments[k].getFirst()];\n','        in.segmentlist[2*k] = (int) point_list.size() + segments[k].getFirst();\n')],
 needs='a seed point on a corner of the region, or a repeated seed', breaks='boundary segments start at the wrong vertex',
 demo='''#include <delynoi/voronoi/TriangleDelaunayGenerator.h>
int main(){ std::vector<Point> r={Point(0,0),Point(10,0),Point(10,10),Point(5,4),Point(0,10)}, s={Point(5,2),Point(5,2),Point(3,3)}; Region reg(r); TriangleDelaunayGenerator g(s,reg);
 Mesh<Triangle> m=g.getConstrainedDelaunayTriangulation(); double a=0; std::vector<Point> p=m.getPoints().getList(); for(Triangle t: m.getPolygons()) a+=std::fabs(t.getArea(p)); CHECK(std::fabs(a-70)<1e-6); return 0; }'''),
dict(id='restricted_second_end', property='C18', edits=[(T,'        in.segmentlist[2*k+1] = pointList.indexOf(s.getSecond());','        in.segmentlist[2*k+1] = in.segmentlist[2*k] + 1;')],
 needs='a restricted segment one of whose ends is already in the list', breaks='the segment ends at whatever point follows its start in the list',
 demo='''#include <delynoi/voronoi/TriangleDelaunayGenerator.h>
int main(){ std::vector<Point> r={Point(0,0),Point(10,0),Point(10,10),Point(0,10)}, s={Point(5,3.7),Point(5,3.3)}; Region reg(r); TriangleDelaunayGenerator g(s,reg);
 std::vector<PointSegment> e={PointSegment(Point(2,2),Point(2,3)),PointSegment(Point(2,2),Point(8,5))}; Mesh<Triangle> m=g.getConstrainedDelaunayTriangulation(e); UniqueList<Point> p=m.getPoints();
 int a=-1,b=-1; for(int i=0;i<p.size();i++){ if(p[i]==Point(8,5)) a=i; if(p[i]==Point(2,2)) b=i; } CHECK(a>=0 && b>=0); CHECK(m.getSegments()->containsSegment(IndexSegment(a,b))); return 0; }'''),
dict(id='hole_last_only', property='C18', edits=[(T,'        in.holelist[2*i+1] = holes[i].getCenter().getY();','        in.holelist[2*i+1] = holes[0].getCenter().getY();')],
 needs='two registered holes at different heights', breaks='all but the first hole are meshed over',
 demo='''#include <delynoi/voronoi/TriangleDelaunayGenerator.h>
#include <delynoi/models/hole/PolygonalHole.h>
int main(){ std::vector<Point> r={Point(0,0),Point(20,0),Point(20,20),Point(0,20)}, s={Point(10,10)}; Region reg(r);
 std::vector<Point> hp={Point(2,2),Point(4,2),Point(4,4),Point(2,4)}, kp={Point(12,14),Point(15,14),Point(15,17),Point(12,17)}; PolygonalHole h(hp), k(kp); reg.addHole(h); reg.addHole(k); CHECK(reg.getHoles().size()==2);
 TriangleDelaunayGenerator g(s,reg); Mesh<Triangle> m=g.getConstrainedDelaunayTriangulation(); double a=0; std::vector<Point> p=m.getPoints().getList(); for(Triangle t: m.getPolygons()) a+=std::fabs(t.getArea(p)); CHECK(std::fabs(a-(400-4-9))<1e-6); return 0; }'''),
dict(id='real_points_third', property='C19', edits=[(T,'        realPoints.push_back(out.trianglelist[3*i+2]);\n','        if(this->meshPoints[out.trianglelist[3*i+2]].isInBoundary()){\n            realPoints.push_back(out.trianglelist[3*i+2]);\n        }\n')],
 needs='an inner point that is the third corner of each of its triangles', breaks='such a point is left out of the used points and gets no Voronoi cell',
 demo='''#include <delynoi/voronoi/TriangleDelaunayGenerator.h>
int main(){ for(int k=0;k<40;k++){ std::vector<Point> r={Point(0,0),Point(10,0),Point(10,10),Point(0,10)}, s; for(int i=0;i<=k;i++) s.push_back(Point(1+std::fmod(i*3.7+k*1.3,8.3),1+std::fmod(i*5.3+k*0.7,8.1))); Region reg(r); TriangleDelaunayGenerator g(s,reg); DelaunayInfo d=g.getConformingDelaunay();
 std::vector<Triangle> ts=d.triangles; UniqueList<int> u; for(Triangle t: ts) for(int v: t.getPoints()) u.push_back(v); CHECK(u.size()==d.realPoints.size()); std::vector<int> a=u.getList(), b=d.realPoints.getList(); for(int i=0;i<a.size();i++) CHECK(a[i]==b[i]); } return 0; }'''),
dict(id='edge_marker_other_end', property='C19', edits=[(T,'        this->points[out.edgelist[2*i+1]].setEdge(i, out.edgemarkerlist[i]);','        this->points[out.edgelist[2*i+1]].setEdge(i, out.edgemarkerlist[out.edgelist[2*i+1]]);')],
 needs='a border point whose border edges come after an inner one', breaks='the border mark of another edge decides which edge a point records',
 demo='''#include <delynoi/voronoi/TriangleDelaunayGenerator.h>
int main(){ for(int k=0;k<30;k++){ std::vector<Point> r={Point(0,0),Point(10,0),Point(10,10),Point(0,10)}, s; for(int i=0;i<=k;i++) s.push_back(Point(1+std::fmod(i*3.7+k*1.3,8.3),1+std::fmod(i*5.3+k*0.7,8.1))); Region reg(r); TriangleDelaunayGenerator g(s,reg); DelaunayInfo d=g.getConformingDelaunay();
 for(int i=0;i<d.meshPoints.size();i++) if(d.meshPoints[i].isInBoundary()) CHECK(d.edges[d.points[i].edge].t2==-1); } return 0; }'''),
dict(id='border_edge_doubled', property='C19', edits=[(T,'NeighboursBySegment neighbours(data.t1, data.t2);','NeighboursBySegment neighbours(data.t1, std::max(data.t1, data.t2));')],
 needs='an edge on the border, or one whose second triangle has the smaller number', breaks='a border edge is said to have the same triangle on both sides',
 demo='''#include <delynoi/voronoi/TriangleDelaunayGenerator.h>
int main(){ std::vector<Point> r={Point(0,0),Point(10,0),Point(10,10),Point(0,10)}, s={Point(5,4)}; Region reg(r); TriangleDelaunayGenerator g(s,reg); DelaunayInfo m=g.getConformingDelaunay();
 int n=0; for(auto& e: m.delaunayEdges->getMap()) if(e.second.getSecond()==-1 || e.second.getFirst()==-1) n++; CHECK(n>=4); return 0; }'''),
]
