// @ C22
// USE
#include "contracts.h"
#include <delynoi/models/Mesh.h>
#include <delynoi/models/Region.h>
#include <delynoi/models/neighbourhood/EdgeData.h>
#include <delynoi/models/basic/PointSegment.h>
#include <sstream>
#include <iomanip>
static std::string whole(int n){ std::stringstream s; s << n; return s.str(); }
static std::string decimal(double x, int digits){ std::stringstream s; s << std::fixed << std::setprecision(digits) << x; return s.str(); }
static std::string text(const Point& p){ int d = DelynoiConfig::instance()->getPrecision(); return decimal(p.getX(), d) + " " + decimal(p.getY(), d); }
static std::string text(int a, int b){ return whole(a) + " " + whole(b); }
static std::string text(const std::vector<int>& v){ std::string s = whole(v.size()); for (int k = 0; k < (int) v.size(); k++) s += " " + whole(v[k]); return s; }
static void store(std::string name, std::string content){ std::ofstream f(utilities::getPath() + name); f << content; f.close(); }
// every element is written as the plain numbers a reader needs
std::string lhs_tx_point(Point p){ return p.getString(); }
std::string rhs_tx_point(Point p){ return text(p); }
std::string lhs_tx_polygon(Polygon p){ return p.getString(); }
std::string rhs_tx_polygon(Polygon p){ return text(p.getPoints()); }
std::string lhs_tx_side(IndexSegment s){ return s.getString(); }
std::string rhs_tx_side(IndexSegment s){ return text(s.getFirst(), s.getSecond()); }
std::string lhs_tx_edge(EdgeData e){ return e.getString(); }
std::string rhs_tx_edge(EdgeData e){ return text(e.p1, e.p2); }
std::string lhs_tx_nbrs(NeighboursBySegment n){ return n.getString(); }
std::string rhs_tx_nbrs(NeighboursBySegment n){ return text(n.getFirst(), n.getSecond()); }
std::string lhs_tx_psegment(PointSegment s){ return s.getString(); }
std::string rhs_tx_psegment(PointSegment s){ return text(s.getFirst()) + " " + text(s.getSecond()); }
// USE outline:Point::getString outline:IndexSegment::getString outline:Polygon::getString outline:NeighboursBySegment::getString
// a file of segments: one line with its ends and its neighbours for each
void lhs_tx_segmap(SegmentMap m, std::string name){ m.printInFile(name); }
void rhs_tx_segmap(SegmentMap m, std::string name){
    std::string s;
    for (auto& e : m.getMap()) s += e.first.getString() + " " + e.second.getString() + "\n";
    store(name, s);
}
// a file of points: one line with its coordinates and every neighbour for each
void lhs_tx_pointmap(PointMap m, std::string name){ m.printInFile(name); }
void rhs_tx_pointmap(PointMap m, std::string name){
    std::string s;
    for (auto& e : m.getMap()){
        s += e.first.getString() + " ";
        NeighboursByPoint n = e.second; std::vector<int> v = n.getNeighbours();
        for (int k = 0; k < (int) v.size(); k++) s += whole(v[k]) + " ";
        s += "\n";
    }
    store(name, s);
}
// a mesh file: points, edges and elements, each block led by its length
static std::string content(Mesh<Polygon>& m){
    std::vector<Point> p = m.getPoints().getList(); std::string s = whole(p.size()) + "\n";
    for (int k = 0; k < (int) p.size(); k++) s += p[k].getString() + "\n";
    s += whole(m.getSegments()->size()) + "\n";
    for (auto& e : m.getSegments()->getMap()){ IndexSegment t = e.first; s += t.getString() + "\n"; }
    s += whole(m.getPolygons().size()) + "\n";
    for (int k = 0; k < (int) m.getPolygons().size(); k++) s += m.getPolygons()[k].getString() + "\n";
    return s;
}
void lhs_tx_mesh(UniqueList<Point>& p, std::vector<Polygon>& e, SegmentMap& s, PointMap& q, std::string name){ Mesh<Polygon> m(p, e, &s, &q); m.printInFile(name); }
void rhs_tx_mesh(UniqueList<Point>& p, std::vector<Polygon>& e, SegmentMap& s, PointMap& q, std::string name){ Mesh<Polygon> m(p, e, &s, &q); store(name, content(m)); }
// USE outline:Point::getString outline:IndexSegment::getString outline:Region::getRegionPoints outline:Region::getSegments
// a region file: its points, its seeds, its sides and no holes
void lhs_tx_region(Region r, std::string name){ r.printInFile(name); }
void rhs_tx_region(Region r, std::string name){
    std::vector<Point> p = r.getRegionPoints(), t = r.getSeedPoints();std::vector<IndexSegment> e; r.getSegments(e);
    std::string s = whole(p.size() + t.size()) + "\n";
    for (int k = 0; k < (int) p.size(); k++) s += p[k].getString() + "\n";
    for (int k = 0; k < (int) t.size(); k++) s += t[k].getString() + "\n";
    s += whole(e.size()) + "\n";
    for (int k = 0; k < (int) e.size(); k++) s += e[k].getString() + "\n";
    store(name, s + "0\n");
}
// @ C23
// USE outline:Polygon::Polygon outline:utilities::splitBySpaces outline:SegmentMap::insert outline:PointMap::insert outline:UniqueList<Point>::push_back outline:Polygon::getSegments
// a mesh is read back from its text: the points, then the elements, whose corners may be numbered from any first index
struct Got { std::vector<Point> points; std::vector<Polygon> elements; SegmentMap sides; PointMap corners; };
static Got got(Mesh<Polygon>& m){ Got g; g.points = m.getPoints().getList(); g.elements = m.getPolygons(); g.sides = *m.getSegments(); g.corners = *m.getPointMap(); return g; }
Got lhs_in_mesh(std::string name, int first){ Mesh<Polygon> m; m.createFromFile(name, first); return got(m); }
Got rhs_in_mesh(std::string name, int first){
    UniqueList<Point> points; Got g; std::vector<int> place; std::string line;
    std::ifstream f = utilities::openFile(name);
    std::getline(f, line); int n = std::atoi(line.c_str());
    for (int k = 0; k < n; k++){
        std::getline(f, line); std::vector<std::string> w = utilities::splitBySpaces(line);
        if (w.size() < 2) throw std::runtime_error("");
        Point p(std::atof(w[0].c_str()), std::atof(w[1].c_str()));
        place.push_back(points.push_back(p));
    }
    std::getline(f, line); int m = std::atoi(line.c_str());
    for (int k = 0; k < m; k++){
        std::getline(f, line); std::vector<std::string> w = utilities::splitBySpaces(line);
        std::vector<int> corners;
        for (int j = 1; j < (int) w.size(); j++){
            int i = std::atoi(w[j].c_str()) - first;
            if (i < 0 || i >= n) throw std::runtime_error("");
            corners.push_back(place[i]);
        }
        Polygon p(corners, points.getList());
        std::vector<IndexSegment> s; p.getSegments(s);
        for (int j = 0; j < (int) s.size(); j++) g.sides.insert(s[j], k);
        for (int j = 0; j < (int) corners.size(); j++) g.corners.insert(points[corners[j]], k);
        g.elements.push_back(p);
    }
    g.points = points.getList();
    return g;
}
