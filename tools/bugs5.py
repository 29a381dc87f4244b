S='delynoi/src/'; I='delynoi/include/delynoi/'; U='lib/utilities/'
PG=S+'models/polygon/Polygon.cpp'; RG=S+'models/Region.cpp'
BUGS=[
dict(id='orient_negates_area', property='C09', edits=[(PG,'''        std::reverse(this->points.begin(), this->points.end());
        this->area = -1;''','''        std::reverse(this->points.begin(), this->points.end());
        this->area = -this->area;''')],
 needs='a clockwise polygon oriented before its area was ever asked for', breaks='the area asked for afterwards is 1, whatever the polygon',
 demo='''#include <delynoi/models/polygon/Polygon.h>
int main(){ std::vector<Point> p={Point(0,0),Point(0,3),Point(4,3),Point(4,0)}; Polygon q(p); q.fixCCW(p); std::vector<Point> r={Point(4,0),Point(4,3),Point(0,3),Point(0,0)}; Polygon f(r); CHECK(std::fabs(q.getArea(p)-f.getArea(r))<1e-9); return 0; }'''),
dict(id='mutate_keeps_diameter', property='C09', edits=[(PG,'''void Polygon::mutate(std::vector<Point> &p) {
    this->points.clear();''','''void Polygon::mutate(std::vector<Point> &p) {
    double known = p.size()==this->points.size()? this->diameter : -1;
    this->points.clear();'''),(PG,'''    this->diameter = -1;
    this->area = -1;
    this->centroid = Point();
    calculateHash();
}

Polygon::Polygon(std::vector<Point> &p) {''','''    this->diameter = known;
    this->area = -1;
    this->centroid = Point();
    calculateHash();
}

Polygon::Polygon(std::vector<Point> &p) {''')],
 needs='the diameter asked for, then the polygon changed to another ring of as many vertices', breaks='the diameter is that of the former ring',
 demo='''#include <delynoi/models/polygon/Polygon.h>
int main(){ std::vector<Point> p={Point(0,0),Point(3,0),Point(3,4),Point(0,4)}, r={Point(0,0),Point(6,0),Point(6,8),Point(0,8)}; Polygon q(p); CHECK(std::fabs(q.getDiameter(p)-5)<1e-9); q.mutate(r); CHECK(std::fabs(q.getDiameter(r)-10)<1e-9); return 0; }'''),
dict(id='box_contains_second', property='C12', edits=[(S+'models/polygon/BoundingBox.cpp','p.getX()<=xMax() && p.getY()>=yMin()','p.getX()<=p2.getX() && p.getY()>=yMin()')],
 needs='a box given by its right corner first', breaks='the box contains no point',
 demo='''#include <delynoi/models/polygon/BoundingBox.h>
int main(){ BoundingBox b(Point(4,0),Point(0,3)); CHECK(b.contains(Point(1,1))); return 0; }'''),
dict(id='region_box_else', property='C12', edits=[(RG,'''        xMin = v.getX()<xMin? v.getX(): xMin;
        xMax = v.getX()>xMax? v.getX(): xMax;''','''        if(v.getX()<xMin) xMin = v.getX();
        else if(v.getX()>xMax) xMax = v.getX();''')],
 needs='a region whose first vertex is the rightmost, so that every other one lies to the left of all before it or is not further right', breaks='the box reaches no further right than a later vertex',
 demo='''#include <delynoi/models/Region.h>
int main(){ std::vector<Point> p={Point(9,0),Point(5,7),Point(1,3)}; Region r(p); CHECK(std::fabs(r.getBox().xMax()-9)<1e-9); return 0; }'''),
dict(id='region_contains_box_first', property='C07', edits=[(RG,'''    std::vector<Point> regionPoints = this->p;

    return Polygon::containsPoint(regionPoints, p);''','''    std::vector<Point> regionPoints = this->p;

    for(int i=0;i<holes.size();i++){
        if(holes[i].containsPoint(p) && !Polygon::inEdges(regionPoints, p)){
            return false;
        }
    }

    return Polygon::containsPoint(regionPoints, p);''')],
 needs='a region with an interior hole asked for a point in it', breaks='containment in the boundary depends on the holes',
 demo='''#include <delynoi/models/Region.h>
#include <delynoi/models/hole/PolygonalHole.h>
int main(){ std::vector<Point> p={Point(0,0),Point(10,0),Point(10,10),Point(0,10)}, h={Point(4,4),Point(6,4),Point(6,6),Point(4,6)}; Region r(p); r.addHole(PolygonalHole(h)); CHECK(r.containsPoint(Point(5,5))); return 0; }'''),
dict(id='generate_first_corner', property='C13', edits=[(S+'models/generator/PointGenerator.cpp','double y = box.yMin() + i*dY;','double y = box.getFirst().getY() + i*dY;')],
 needs='a box given by its upper corner first', breaks='the grid starts at the upper side and leaves the box',
 demo='''#include <delynoi/models/generator/PointGenerator.h>
#include <delynoi/models/generator/functions/functions.h>
int main(){ PointGenerator g(functions::constant(), functions::constant()); std::vector<Point> v; BoundingBox b(Point(0,6),Point(4,0)); g.generate(v,b,3,4); CHECK(v.size()==12); for(Point q: v) CHECK(q.getY()>-1e-9 && q.getY()<6+1e-9); return 0; }'''),
dict(id='region_points_accumulate', property='C05', edits=[(RG,'''    std::vector<Point> points;
    points.assign(this->p.begin(), this->p.end());

    for(int i=0;i<holes.size();i++){''','''    std::vector<Point> inner;
    std::vector<Point>& points = holes.size()>1? this->p : inner;
    if(&points == &inner) points.assign(this->p.begin(), this->p.end());

    for(int i=0;i<holes.size();i++){''')],
 needs='a region with two holes asked for its points', breaks='the question adds the points of the holes to the boundary of the region',
 demo='''#include <delynoi/models/Region.h>
#include <delynoi/models/hole/PolygonalHole.h>
int main(){ std::vector<Point> p={Point(0,0),Point(10,0),Point(10,10),Point(0,10)}, h={Point(1,1),Point(3,1),Point(3,3),Point(1,3)}, k={Point(6,6),Point(8,6),Point(8,8),Point(6,8)}; Region r(p); r.addHole(PolygonalHole(h)); r.addHole(PolygonalHole(k));
 CHECK(r.getRegionPoints().size()==12); CHECK(r.getRegionPoints().size()==12); return 0; }'''),
dict(id='holes_cleared_with_seeds', property='C10', edits=[(RG,'''    this->holes.clear();''','''    if(!this->holes.empty()) this->cleanSeedPoints();
    this->holes.clear();''')],
 needs='a region with a hole and seeds whose holes are then cleared', breaks='the seeds are lost',
 demo='''#include <delynoi/models/Region.h>
#include <delynoi/models/hole/PolygonalHole.h>
int main(){ std::vector<Point> p={Point(0,0),Point(10,0),Point(10,10),Point(0,10)}, h={Point(1,1),Point(3,1),Point(3,3),Point(1,3)}, s={Point(5,5)}; Region r(p); r.addSeedPoints(s); r.addHole(PolygonalHole(h)); r.cleanInternalHoles(); CHECK(r.getSeedPoints().size()==1); return 0; }'''),
dict(id='list_equality_size', property='C27', edits=[(U+'include/utilities/UniqueList.h','    return this->list==other.getList();','    return this->size()==other.size() && this->list==other.getList();')],
 needs='a program that compares two lists', breaks='the comparison asks a const list for a size that only others have: it no longer compiles',
 demo='''#include <utilities/UniqueList.h>
int main(){ UniqueList<int> a, b; int x=3; a.push_back(x); CHECK(!(a==b)); b.push_back(x); CHECK(a==b); return 0; }'''),
dict(id='circle_radius_unset', property='C28', edits=[(S+'models/polygon/Circle.cpp','    this->radius = r;','    if(r>0) this->radius = r;')],
 needs='a circle of radius zero built where memory held other values', breaks='the radius has no value',
 demo='''#include <new>
#include <cstring>
#include <delynoi/models/polygon/Circle.h>
#include <delynoi/models/hole/CircularHole.h>
int main(){ static unsigned char m[sizeof(Circle)]; double d=7; for(size_t k=0;k+sizeof d<=sizeof m;k+=sizeof d) std::memcpy(m+k,&d,sizeof d); Circle* c=new(m) Circle(0,Point(1,1)); std::vector<Point> v=c->discretizeCircle(); for(Point q: v) CHECK(std::fabs(q.getX()-1)<1e-9); return 0; }'''),
]
