S='delynoi/src/'; I='delynoi/include/delynoi/'; V=S+'voronoi/DelaunayToVoronoi.cpp'
SETUP='''#include <delynoi/voronoi/TriangleVoronoiGenerator.h>
'''
BUGS=[
dict(id='cell_side_wrong_edge', property='C20', edits=[(V,'int currentEdge = del.edgeMap[Key(edge.p1, edge.p2)];','int currentEdge = del.edgeMap[Key(index, edge.p2)];')],
 needs='a cell on the border whose walk ends at an edge that lists the site second', breaks='the middle of another edge becomes a corner of the cell',
 demo=SETUP+'''int main(){ std::vector<Point> r={Point(0,0),Point(10,0),Point(10,10),Point(0,10)}, s={Point(5,5),Point(3,7)}; Region reg(r); TriangleVoronoiGenerator g(s,reg); Mesh<Polygon>& m=g.getMesh();
 double a=0; std::vector<Point> p=m.getPoints().getList(); for(Polygon q: m.getPolygons()) a+=std::fabs(q.getArea(p)); CHECK(std::fabs(a-100)<1e-6); return 0; }'''),
dict(id='cell_start_unregistered', property='C20', edits=[(V,'            cellPoints.push_back(index2);\n            pointMap->insert(del.circumcenters[index2], cellIndex);\n        }\n\n        cellPoints.push_back(index1);\n        pointMap->insert(del.circumcenters[index1], cellIndex);\n\n        EdgeData edge','            cellPoints.push_back(index2);\n            pointMap->insert(del.circumcenters[index1], cellIndex);\n        }\n\n        cellPoints.push_back(index1);\n        pointMap->insert(del.circumcenters[index1], cellIndex);\n\n        EdgeData edge')],
 needs='a cell on the border (a closed cell meets its first corner again)', breaks='the corner where an open cell starts is not registered with the cell',
 demo=SETUP+'''int main(){ std::vector<Point> r={Point(0,0),Point(10,0),Point(10,10),Point(0,10)}, s={Point(5,5),Point(3,7)}; Region reg(r); TriangleVoronoiGenerator g(s,reg); Mesh<Polygon>& m=g.getMesh();
 std::vector<Point> p=m.getPoints().getList(); int i=0; for(Polygon q: m.getPolygons()){ for(int v: q.getPoints()){ std::vector<int> n=m.getPointMap()->get(p[v]).getNeighbours(); bool f=false; for(int c: n) f=f||c==i; CHECK(f); } i++; } return 0; }'''),
dict(id='closing_side_once', property='C20', edits=[(V,'                voronoiEdges->insert(e2, cellIndex);','                voronoiEdges->insert(e2, cellIndex + 1);')],
 needs='a cell at a corner of the region', breaks='the last side of the cell is registered with the following cell',
 demo=SETUP+'''int main(){ std::vector<Point> r={Point(0,0),Point(10,0),Point(10,10),Point(0,10)}, s={Point(5,5),Point(3,7)}; Region reg(r); TriangleVoronoiGenerator g(s,reg); Mesh<Polygon>& m=g.getMesh();
 int i=0; for(Polygon q: m.getPolygons()){ std::vector<IndexSegment> e; q.getSegments(e); for(IndexSegment x: e){ NeighboursBySegment n=m.getSegments()->get(x); CHECK(n.getFirst()==i || n.getSecond()==i); } i++; } return 0; }'''),
dict(id='triangulation_of_other_corner', property='C20', edits=[(S+'models/polygon/Triangle.cpp','    return Point(uX,uY);','    return Point(uX, C.getX() == A.getX()? (A.getY()+C.getY())/2 + 0*uY : uY);')],
 needs='never: equal for right triangles only', breaks='', demo='int main(){return 1;}'),
]
BUGS.pop()
