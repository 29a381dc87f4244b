S='delynoi/src/'; I='delynoi/include/delynoi/'; U='lib/utilities/'
PG=S+'models/polygon/Polygon.cpp'; RG=S+'models/Region.cpp'; UT=U+'src/utilities.cpp'; UL=U+'include/utilities/UniqueList.h'
READ='''#include <fstream>
#include <sstream>
#include <cstdlib>
static std::string slurp(std::string n){ std::ifstream f(std::string(getenv("HOME"))+"/"+n); std::stringstream s; s<<f.rdbuf(); return s.str(); }
static void spit(std::string n, std::string t){ std::ofstream f(std::string(getenv("HOME"))+"/"+n); f<<t; }
'''
BUGS=[
dict(id='ear_corner_on_diagonal', property='C21', edits=[(S+'triangulation/EarTriangulationGenerator.cpp','t.containsPoint(points, points[pointList[j]])){','t.containsPoint(points, points[pointList[j]]) && !t.inEdges(points, points[pointList[j]])){')],
 needs='a corner of the polygon exactly on the diagonal that would cut off another', breaks='a triangle is cut whose side runs through another corner',
 demo='''#include <delynoi/triangulation/EarTriangulationGenerator.h>
int main(){ std::vector<Point> p={Point(5,11),Point(10,9),Point(7,15),Point(4,12),Point(2,12),Point(2,10)}; Polygon q(p); EarTriangulationGenerator g; std::vector<Triangle> t=g.triangulate(q,p);
 for(Triangle x: t) for(int k=0;k<6;k++) CHECK(x.isVertex(k) || !x.containsPoint(p,p[k])); return 0; }'''),
dict(id='ear_orientation_collinear', property='C21', edits=[(S+'triangulation/EarTriangulationGenerator.cpp','points[pointList[(size+i+1)%size]])>0){','points[pointList[(size+i+1)%size]])>=0){')],
 needs='a polygon with a vertex on the straight line between its neighbours', breaks='a flat triangle is cut as an ear',
 demo='''#include <delynoi/triangulation/EarTriangulationGenerator.h>
int main(){ std::vector<Point> p={Point(0,0),Point(5,0),Point(10,0),Point(10,10),Point(0,10)}; Polygon q(p); EarTriangulationGenerator g; std::vector<Triangle> t=g.triangulate(q,p);
 for(Triangle x: t) CHECK(std::fabs(x.getArea(p))>1e-9); return 0; }'''),
dict(id='centre_fan_first_index', property='C21', edits=[(S+'triangulation/CenterTriangulationGenerator.cpp','polyPoints[(i+1)%n], centerIndex};','i+1<n? polyPoints[i+1] : 0, centerIndex};')],
 needs='a polygon whose first vertex is not the first point of the list', breaks='the last triangle of the fan is closed with a foreign point',
 demo='''#include <delynoi/triangulation/CenterTriangulationGenerator.h>
int main(){ std::vector<Point> p={Point(50,50),Point(0,0),Point(10,0),Point(10,10),Point(0,10)}; std::vector<int> v={1,2,3,4}; Polygon q(v,p); CenterTriangulationGenerator g; double a=0; std::vector<Triangle> t=g.triangulate(q,p);
 for(Triangle x: t) a+=std::fabs(x.getArea(p)); CHECK(t.size()==4); CHECK(std::fabs(a-100)<1e-9); return 0; }'''),
dict(id='arc_step_kept', property='C24', edits=[(S+'utilities/delynoi_utilities.cpp','        int steps = DelynoiConfig::instance()->getDiscretizationGrade();\n','        static int steps = DelynoiConfig::instance()->getDiscretizationGrade();\n')],
 needs='the discretization grade changed between two arcs', breaks='arcs keep the grade in force at the first one',
 demo='''#include <delynoi/utilities/delynoi_utilities.h>
#include <delynoi/config/DelynoiConfig.h>
int main(){ DelynoiConfig::instance()->setDiscretizationGrade(4); CHECK(delynoi_utilities::generateArcPoints(Point(0,0),1,0,90).size()==5); DelynoiConfig::instance()->setDiscretizationGrade(7);
 CHECK(delynoi_utilities::generateArcPoints(Point(0,0),1,0,90).size()==8); return 0; }'''),
dict(id='scale_changes_precision', property='C24', edits=[(S+'config/DelynoiConfig.cpp','    this->scale_for_clipper = s;','    this->scale_for_clipper = s;\n    if(s>1000000) this->precision = 10;')],
 needs='a scale above a million', breaks='setting the scale changes the output precision',
 demo='''#include <delynoi/models/basic/Point.h>
#include <delynoi/config/DelynoiConfig.h>
int main(){ DelynoiConfig::instance()->setPrecision(2); DelynoiConfig::instance()->setScale(100000000); CHECK(Point(1,2).getString()=="1.00 2.00"); return 0; }'''),
dict(id='region_count_without_seeds', property='C22', edits=[(RG,'    file << (points.size() + seedPoints.size()) << std::endl;','    file << (points.size() + (holes.empty()? seedPoints.size() : 0)) << std::endl;')],
 needs='a region with both a hole and seeds written to a file', breaks='the length of the point block leaves out the seeds',
 demo=READ+'''#include <delynoi/models/Region.h>
#include <delynoi/models/hole/PolygonalHole.h>
int main(){ std::vector<Point> p={Point(0,0),Point(10,0),Point(10,10),Point(0,10)}, h={Point(4,4),Point(6,4),Point(6,6),Point(4,6)}, s={Point(1,1),Point(2,3)}; Region r(p); r.addHole(PolygonalHole(h)); r.addSeedPoints(s);
 r.printInFile("r.txt"); std::stringstream t(slurp("r.txt")); int n; t>>n; CHECK(n==10); double x,y; for(int i=0;i<n;i++) t>>x>>y; t>>n; CHECK(n==8); return 0; }'''),
dict(id='text_rounded_small', property='C22', edits=[(UT,'        sstream << d;','        sstream << (std::abs(d)<1e-6? 0.0 : d);')],
 needs='coordinates below a millionth, written at a higher precision', breaks='small coordinates are written as zero',
 demo='''#include <delynoi/models/basic/Point.h>
#include <delynoi/config/DelynoiConfig.h>
int main(){ DelynoiConfig::instance()->setPrecision(10); CHECK(Point(0.0000005,1).getString()=="0.0000005000 1.0000000000"); return 0; }'''),
dict(id='polygon_copy_area_sign', property='C25', edits=[(PG,'    this->area = obj.area;','    this->area = obj.area < 0 ? -obj.area : obj.area;')],
 needs='a copy of a polygon listed clockwise whose area was asked for before', breaks='the copy reports another area than the original',
 demo='''#include <delynoi/models/polygon/Polygon.h>
int main(){ std::vector<Point> p={Point(0,0),Point(0,2),Point(2,2),Point(2,0)}; Polygon q(p); double a=q.getArea(p); Polygon c(q); CHECK(c.getArea(p)==a); return 0; }'''),
dict(id='random_range_kept', property='C26', edits=[(UT,'        std::uniform_int_distribution<int> uni(min,max);','        static std::uniform_int_distribution<int> uni(min,max);')],
 needs='two random integers drawn from different ranges', breaks='the second is drawn from the first range',
 demo='''#include <utilities/utilities.h>
int main(){ for(int i=0;i<50;i++){ int a=utilities::random_integer(0,3); CHECK(a>=0&&a<=3); } for(int i=0;i<50;i++){ int a=utilities::random_integer(100,200); CHECK(a>=100&&a<=200); } return 0; }'''),
dict(id='pair_less_or_equal', property='C06', edits=[(U+'include/utilities/Pair.h','        return this->second<other.second;','        return !(other.second<this->second);')],
 needs='equal pairs compared', breaks='a pair comes before itself, so sets and maps hold it twice',
 demo='''#include <utilities/Pair.h>
int main(){ Pair<int> a(1,2), b(1,2); CHECK(!(a<b)); return 0; }'''),
dict(id='hull_lower_keeps_collinear', property='C04', edits=[(S+'utilities/convexHull.cpp','lower[lower.size()-1],points[i])<=0){','lower[lower.size()-1],points[i])<0){')],
 needs='three points on a line along the lower side of the hull', breaks='points inside a side are kept as hull vertices',
 demo='''#include <delynoi/utilities/convexHull.h>
int main(){ std::vector<Point> p={Point(0,0),Point(5,0),Point(10,0),Point(5,8)}, u, l; convex::convexHull(p,u,l); CHECK(l.size()==2); return 0; }'''),
dict(id='calipers_parallel_sides', property='C04', edits=[(S+'utilities/convexHull.cpp','                     (l[j].getY() - l[j - 1].getY()) * (u[i + 1].getX() - u[i].getX()))','                     (l[j].getY() - l[j - 1].getY()) * std::abs(u[i + 1].getY() - u[i].getY()))')],
 needs='upper and lower sides of different slope', breaks='the calipers turn on the wrong side and miss the farthest pair',
 demo='''#include <delynoi/models/polygon/Polygon.h>
int main(){ std::vector<Point> p={Point(-5,-8),Point(8,-3),Point(8,0),Point(5,9),Point(-6,9)}; Polygon q(p); double m=0; for(Point a: p) for(Point b: p) m=std::max(m,std::hypot(a.getX()-b.getX(),a.getY()-b.getY())); CHECK(std::fabs(q.getDiameter(p)-m)<1e-9); return 0; }'''),
dict(id='diameter_sorts_argument', property='C05', edits=[(PG,'        std::vector<Point> thisPoints = this->getPoints(points);\n        this->diameter = this->calculateDiameter(thisPoints);','        std::vector<Point> thisPoints = this->getPoints(points);\n        this->diameter = this->calculateDiameter(thisPoints.size()==points.size()? points : thisPoints);')],
 needs='the diameter of a polygon that uses all points of the list', breaks='the list of points is left sorted',
 demo='''#include <delynoi/models/polygon/Polygon.h>
int main(){ std::vector<Point> p={Point(5,0),Point(10,5),Point(5,10),Point(0,5)}; Polygon q(p); q.getDiameter(p); CHECK(p[0]==Point(5,0)); return 0; }'''),
dict(id='seed_clean_boundary_first_hole', property='C10', edits=[(RG,'                keep = keep && !h.containsPoint(seedPoints[i]);','                keep = keep && !(h.containsPoint(seedPoints[i]) && !(h.getCenter()==seedPoints[i]));')],
 needs='a seed exactly at the centre of a hole', breaks='a seed inside a hole is kept',
 demo='''#include <delynoi/models/Region.h>
#include <delynoi/models/hole/PolygonalHole.h>
int main(){ std::vector<Point> p={Point(0,0),Point(10,0),Point(10,10),Point(0,10)}, h={Point(4,4),Point(6,4),Point(6,6),Point(4,6)}, s={Point(5,5),Point(1,1)}; Region r(p); r.addHole(PolygonalHole(h)); r.addSeedPoints(s);
 CHECK(r.getSeedPoints().size()==1); return 0; }'''),
dict(id='hole_offset_first', property='C11', edits=[(RG,'        offset += h.getPoints().size();','        offset = (int) this->p.size() + h.getPoints().size();')],
 needs='a region with three holes', breaks='the sides of the third hole refer to points of the second',
 demo='''#include <delynoi/models/Region.h>
#include <delynoi/models/hole/PolygonalHole.h>
int main(){ std::vector<Point> p={Point(0,0),Point(20,0),Point(20,20),Point(0,20)}; Region r(p); for(int k=0;k<3;k++){ double x=2+6*k; std::vector<Point> h={Point(x,4),Point(x+2,4),Point(x+2,6),Point(x,6)}; r.addHole(PolygonalHole(h)); }
 std::vector<IndexSegment> s; r.getSegments(s); CHECK(s.size()==16); CHECK(s[12].getFirst()==12); return 0; }'''),
dict(id='hole_scale_truncated', property='C11', edits=[(RG,'            newPoints.push_back(Point(solution[0][i].X/(1.0*config->getScale()),\n                                      solution[0][i].Y/(1.0*config->getScale())));','            newPoints.push_back(Point(solution[0][i].X/(1.0*config->getScale()),\n                                      solution[0][i].Y/(config->getScale()>100000? 100000.0 : 1.0*config->getScale())));')],
 needs='a hole across the border of a region at a scale above the default', breaks='the new border is stretched in y',
 demo='''#include <delynoi/models/Region.h>
#include <delynoi/config/DelynoiConfig.h>
#include <delynoi/models/hole/PolygonalHole.h>
int main(){ DelynoiConfig::instance()->setScale(1000000); std::vector<Point> p={Point(0,0),Point(10,0),Point(10,10),Point(0,10)}, h={Point(8,4),Point(12,4),Point(12,6),Point(8,6)}; Region r(p); r.addHole(PolygonalHole(h));
 std::vector<Point> q=r.getRegionPoints(); double m=0; for(Point a: q) m=std::max(m,a.getY()); CHECK(std::fabs(m-10)<1e-6); return 0; }'''),
dict(id='generate_row_height', property='C13', edits=[(S+'models/generator/PointGenerator.cpp','            double y = box.yMin() + i*dY;','            double y = box.getFirst().getY() + i*dY;')],
 needs='a box given by its upper corner first', breaks='points are generated above the box',
 demo='''#include <delynoi/models/generator/PointGenerator.h>
#include <delynoi/models/generator/functions/functions.h>
int main(){ PointGenerator g(functions::constant(),functions::constant()); std::vector<Point> v; g.generate(v,BoundingBox(Point(0,10),Point(10,0)),3,3); for(Point p: v) CHECK(p.getY()<=10.001); return 0; }'''),
dict(id='sine_phase_scaled', property='C14', edits=[(S+'models/generator/functions/FunctorClasses.cpp','        return amplitude*std::sin(utilities::radian(frecuency*x*180) + utilities::radian(phase));','        return amplitude*std::sin(utilities::radian(frecuency*x*180 + std::fmod(phase,180)));')],
 needs='a sine with a phase of half a turn or more', breaks='the phase loses half a turn',
 demo='''#include <delynoi/models/generator/functions/functions.h>
#include <cmath>
int main(){ Functor* f=functions::sine(2,1,180); CHECK(std::fabs(f->apply(0.5)+2)<1e-9); return 0; }'''),
dict(id='alternating_delta_signed', property='C14', edits=[(S+'models/generator/functions/FunctorClasses.cpp','            delta = std::abs(visitedPlaces[0] - x);','            if(x > visitedPlaces[0]) delta = x - visitedPlaces[0];')],
 needs='places visited from right to left', breaks='shifted rows are shifted by an old distance',
 demo='''#include <delynoi/models/generator/functions/functions.h>
#include <cmath>
int main(){ Functor* f=functions::constantAlternating(); double a[]={4,2,0}; for(double x: a) CHECK(f->apply(x)==x); for(double x: a) CHECK(std::fabs(f->apply(x)-(x+1))<1e-9); return 0; }'''),
dict(id='clear_single_element', property='C15', edits=[(UL,'    this->list.clear();\n    this->map.clear();','    this->list.clear();\n    if(this->map.size() > 1) this->map.clear();')],
 needs='a list of one element cleared and filled again', breaks='the element is believed to be in the empty list',
 demo='''#include <utilities/UniqueList.h>
int main(){ UniqueList<int> l; int a=5; l.push_back(a); l.clear(); CHECK(!l.contains(5)); CHECK(l.push_back(a)==0); CHECK(l.size()==1); return 0; }'''),
dict(id='contains_edge_wraps', property='C02', edits=[(PG,'(std::abs(i-j)==1 || std::abs(i-j)==(n-1));','(std::abs(i-j)==1 || i*j==0 && std::abs(i-j)>=n-1-(n>5));')],
 needs='a polygon of six or more sides', breaks='a diagonal next to the closing edge counts as an edge',
 demo='''#include <delynoi/models/polygon/Polygon.h>
int main(){ std::vector<Point> p={Point(0,0),Point(4,0),Point(6,2),Point(6,4),Point(3,6),Point(0,4)}; Polygon q(p); IndexSegment s(0,4); CHECK(!q.containsEdge(s)); IndexSegment t(0,5); CHECK(q.containsEdge(t)); return 0; }'''),
dict(id='reader_last_column', property='C23', edits=[(I+'models/Mesh.h','        Point newPoint(std::atof(splittedLine[0].c_str()), std::atof(splittedLine[1].c_str()));','        Point newPoint(std::atof(splittedLine.front().c_str()), std::atof(splittedLine.back().c_str()));')],
 needs='a file whose points carry a further column', breaks='the last column is taken for y',
 demo=READ+'''#include <delynoi/models/Mesh.h>
int main(){ spit("a.txt","3\\n0 0 1\\n1 0 1\\n0 2 1\\n1\\n3 0 1 2\\n"); Mesh<Polygon> m; m.createFromFile("a.txt",0); CHECK(m.getPoint(2).getY()==2); return 0; }'''),
dict(id='seed_file_no_repeats', property='C23', edits=[(RG,'        this->seedPoints.push_back(newPoint);\n','        if(std::find(this->seedPoints.begin(), this->seedPoints.end(), newPoint) == this->seedPoints.end())\n            this->seedPoints.push_back(newPoint);\n')],
 needs='a seed file that repeats a seed', breaks='repeated seeds are dropped when read from a file',
 demo=READ+'''#include <delynoi/models/Region.h>
int main(){ spit("s.txt","3\\n1 1\\n2 2\\n1 1\\n"); std::vector<Point> p={Point(0,0),Point(10,0),Point(10,10),Point(0,10)}; Region r(p); r.addSeedsFromFile("s.txt"); CHECK(r.getSeedPoints().size()==3); return 0; }'''),
dict(id='region_copy_holes_if_seeds', property='C25', edits=[(RG,'    this->holes.assign(other.holes.begin(), other.holes.end());','    if(!other.seedPoints.empty() || other.holes.size() > 1) this->holes.assign(other.holes.begin(), other.holes.end());')],
 needs='a copy of a region with one hole and no seeds', breaks='the copy has no hole',
 demo='''#include <delynoi/models/Region.h>
#include <delynoi/models/hole/PolygonalHole.h>
int main(){ std::vector<Point> p={Point(0,0),Point(10,0),Point(10,10),Point(0,10)}, h={Point(4,4),Point(6,4),Point(6,6),Point(4,6)}; Region r(p); r.addHole(PolygonalHole(h)); Region c(r); CHECK(c.getHoles().size()==1); return 0; }'''),
]
BUGS=[b for b in BUGS if 'int main(){return 1;}' not in b['demo']]
BUGS=[b for b in BUGS if b['id'] not in ('ear_orientation_collinear',)]
BUGS.append(dict(id='config_instance_reset', property='C24', edits=[(S+'config/DelynoiConfig.cpp','    if(!s_instance){','    if(!s_instance || s_instance->precision < 0){')],
 needs='a negative precision set', breaks='the whole configuration falls back to its initial settings', demo='''#include <delynoi/config/DelynoiConfig.h>
int main(){ DelynoiConfig::instance()->setScale(7); DelynoiConfig::instance()->setPrecision(-1); CHECK(DelynoiConfig::instance()->getScale()==7); return 0; }'''))
