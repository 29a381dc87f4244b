S='delynoi/src/'; I='delynoi/include/delynoi/'; U='lib/utilities/src/utilities.cpp'; ME=I+'models/Mesh.h'; V=S+'voronoi/DelaunayToVoronoi.cpp'; T=S+'triangulation/'; NB=S+'models/neighbourhood/'; RE=S+'models/Region.cpp'; TR=S+'models/polygon/Triangle.cpp'; PT=S+'models/basic/Point.cpp'; PO=S+'models/polygon/Polygon.cpp'
EDITS=[
# a local record of one cell edge extracted into a helper; ternary turned into an if
('d2v_helper',V,'fn: DelaunayToVoronoi::DelaunayToVoronoi(','''
static void addCellEdge(SegmentMap* edges, std::vector<IndexSegment>& collected, int from, int to, int cell) {
    IndexSegment segment(from, to);

    collected.push_back(segment);
    edges->insert(segment, cell);
}

static void addCellPoint(PointMap* pointMap, UniqueList<int>& cell, UniqueList<Point>& circumcenters, int index, int cellIndex) {
    cell.push_back(index);
    pointMap->insert(circumcenters[index], cellIndex);
}

DelaunayToVoronoi::DelaunayToVoronoi(DelaunayInfo& del) {
    SegmentMap* voronoiEdges = new SegmentMap;
    PointMap* pointMap = new PointMap;
    std::vector<Polygon> voronoiCells;

    for(int i = 0, total = del.realPoints.size(); i < total; ++i) {
        const int index = del.realPoints[i];
        const int cellIndex = (int) voronoiCells.size();
        const int firstEdge = del.points[index].edge;
        std::vector<IndexSegment> thisEdges;
        UniqueList<int> cellPoints;
        Point regionCenter = del.meshPoints[index];
        EdgeData init_edge = del.edges[firstEdge];

        int current = init_edge.t1;
        int previous = init_edge.t2;

        int currentCenter = getCircumcenter(del, current, firstEdge);
        int previousCenter = getCircumcenter(del, previous, firstEdge);

        if(!(currentCenter==previousCenter)){
            addCellEdge(voronoiEdges, thisEdges, previousCenter, currentCenter, cellIndex);
            addCellPoint(pointMap, cellPoints, del.circumcenters, previousCenter, cellIndex);
        }

        addCellPoint(pointMap, cellPoints, del.circumcenters, currentCenter, cellIndex);

        EdgeData edge = del.edges[del.triangles[current].nextEdge(index, init_edge, del.edgeMap)];

        while(!(edge==init_edge)){
            previous = current;

            if(edge.t1==previous){
                current = edge.t2;
            }else{
                current = edge.t1;
            }

            int currentEdge = del.edgeMap[Key(edge.p1, edge.p2)];

            currentCenter = getCircumcenter(del, current, currentEdge);
            previousCenter = getCircumcenter(del, previous, currentEdge);

            if(!(currentCenter==previousCenter)){
                addCellEdge(voronoiEdges, thisEdges, previousCenter, currentCenter, cellIndex);
                addCellPoint(pointMap, cellPoints, del.circumcenters, previousCenter, cellIndex);
            }

            addCellPoint(pointMap, cellPoints, del.circumcenters, currentCenter, cellIndex);

            if(current==-1){
                break;
            }

            edge = del.edges[del.triangles[current].nextEdge(index, edge, del.edgeMap)];
        }

        if(edge.t2==-1){
            int firstPoint = cellPoints[0];
            int lastPoint = cellPoints[cellPoints.size()-1];

            if(!geometry_functions::collinear(del.circumcenters[firstPoint],regionCenter,del.circumcenters[lastPoint])){
                regionCenter.setBoundary();
                int regionIndex = del.circumcenters.push_back(regionCenter);
                addCellPoint(pointMap, cellPoints, del.circumcenters, regionIndex, cellIndex);

                addCellEdge(voronoiEdges, thisEdges, lastPoint, regionIndex, cellIndex);
                addCellEdge(voronoiEdges, thisEdges, regionIndex, firstPoint, cellIndex);
            } else{
                addCellEdge(voronoiEdges, thisEdges, lastPoint, firstPoint, cellIndex);
            }
        }

        std::vector<Point>& pointList = del.circumcenters.getList();

        Polygon p(cellPoints.getList(), pointList);
        p.fixCCW(pointList);

        voronoiCells.push_back(p);
    }

    this->mesh = Mesh<Polygon>(del.circumcenters, voronoiCells, voronoiEdges, pointMap);
}'''),
('d2v_center',V,'fn: int DelaunayToVoronoi::getCircumcenter(','''
int DelaunayToVoronoi::getCircumcenter(DelaunayInfo& del, int triangle, int edge) {
    if(triangle==-1){
        const EdgeData& data = del.edges[edge];
        IndexSegment side(data.p1, data.p2);
        Point middle = side.middlePoint(del.meshPoints);
        middle.setBoundary();

        return del.circumcenters.push_back(middle);
    }

    return del.triangles[triangle].getCircumcenterIndex();
}'''),
('tvg',S+'voronoi/TriangleVoronoiGenerator.cpp','fn: TriangleVoronoiGenerator::TriangleVoronoiGenerator(','''
TriangleVoronoiGenerator::TriangleVoronoiGenerator(std::vector<Point> &point_list, Region region) {
    TriangleDelaunayGenerator generator(point_list, region);
    DelaunayInfo info = generator.getConformingDelaunay();
    this->delaunay = generator.initializeMesh<Polygon>();

    DelaunayToVoronoi transformer(info);
    this->voronoi = transformer.getMesh();
}'''),
('center',T+'CenterTriangulationGenerator.cpp','fn: std::vector<Triangle> CenterTriangulationGenerator::triangulate(','''
std::vector<Triangle> CenterTriangulationGenerator::triangulate(Polygon p, std::vector<Point>& points) {
    if(p.isConvex(points)){
        std::vector<Triangle> triangles;
        const std::vector<int> corners = p.getPoints();
        const int centerIndex = (int) points.size();
        points.push_back(p.getAverage(points));

        for (std::size_t i = 0; i < corners.size(); ++i) {
            const int next = i+1 == corners.size()? corners.front() : corners[i+1];
            triangles.push_back(Triangle({corners[i], next, centerIndex}, points));
        }

        return triangles;
    }

    throw std::invalid_argument("Can not use a center triangulation scheme on a non convex polygon");
}'''),
('deltri',T+'DelaunayTriangulationGenerator.cpp','fn: std::vector<Triangle> DelaunayTriangulationGenerator::triangulate(','''
static int positionOf(Point vertex, std::vector<Point>& points) {
    for (int i = 0; i < (int) points.size(); ++i) {
        if(points[i]==vertex){
            return i;
        }
    }

    points.push_back(vertex);
    return (int) points.size()-1;
}

std::vector<Triangle> DelaunayTriangulationGenerator::triangulate(Polygon p, std::vector<Point>& points) {
    Region region (p, points);
    TriangleDelaunayGenerator generator(points, region);
    Mesh<Triangle> triangulation = generator.getConstrainedDelaunayTriangulation();
    std::vector<Triangle> result;

    for (Triangle t: triangulation.getPolygons()) {
        std::vector<int> indexes;

        for (int index: t.getPoints()) {
            indexes.push_back(positionOf(triangulation.getPoint(index), points));
        }

        result.push_back(Triangle(indexes, points));
    }

    return result;
}'''),
('ear',T+'EarTriangulationGenerator.cpp','fn: Triangle EarTriangulationGenerator::getEar(','''
static bool isEmptyOf(Triangle& t, std::vector<Point>& points, std::vector<int>& pointList) {
    for(int v: pointList){
        if(!t.isVertex(v) && t.containsPoint(points, points[v])){
            return false;
        }
    }

    return true;
}

Triangle EarTriangulationGenerator::getEar(std::vector<Point>& points, std::vector<int> &pointList) {
    int size = (int) pointList.size();

    if(size<3){
        return Triangle();
    }

    if(size==3){
        Triangle last ({pointList[0], pointList[1], pointList[2]}, points);
        pointList.clear();
        return last;
    }

    for(int i=0;i<size;i++){
        int before = pointList[i==0? size-1 : i-1];
        int tip = pointList[i];
        int after = pointList[(i+1)%size];

        Triangle t ({before, tip, after}, points);

        if(delynoi_utilities::orientation(points[before], points[tip], points[after])<=0){
            continue;
        }

        if(isEmptyOf(t, points, pointList)){
            pointList.erase(pointList.begin() + i);
            return t;
        }
    }

    return Triangle();
}'''),
('eartri',T+'EarTriangulationGenerator.cpp','fn: std::vector<Triangle> EarTriangulationGenerator::triangulate(','''
std::vector<Triangle> EarTriangulationGenerator::triangulate(Polygon p, std::vector<Point>& points) {
    p.fixCCW(points);

    std::vector<Triangle> triangles;
    std::vector<int> remaining = p.getPoints();
    bool found = true;

    while(found && remaining.size()>2){
        Triangle ear = getEar(points, remaining);
        found = !ear.isNull();

        if(found){
            triangles.push_back(ear);
        }
    }

    return triangles;
}'''),
('cfg_inst',S+'config/DelynoiConfig.cpp','fn: DelynoiConfig *DelynoiConfig::instance()','''
DelynoiConfig *DelynoiConfig::instance() {
    if(s_instance == nullptr){
        s_instance = new DelynoiConfig();
    }

    return s_instance;
}'''),
('cfg_ctor',S+'config/DelynoiConfig.cpp','fn: DelynoiConfig::DelynoiConfig()','''
DelynoiConfig::DelynoiConfig() : circle_discretization_grade(12), double_comparison_tolerance(1e-5),
                                 scale_for_clipper(100000) {
    setPrecision(6);
}'''),
('pt_str',PT,'fn: std::string Point::getString()','''
std::string Point::getString() const{
    const int digits = DelynoiConfig::instance()->getPrecision();
    std::string text = utilities::toStringWithPrecision(x, digits);
    text += " ";
    text += utilities::toStringWithPrecision(y, digits);

    return text;
}'''),
('pt_eq',PT,'fn: bool Point::operator==(','''
static bool near(double a, double b) {
    return std::abs(a-b) < DelynoiConfig::instance()->getTolerance();
}

bool Point::operator==(const Point &other) const{
    if(!near(this->x, other.x)){
        return false;
    }

    return near(this->y, other.y);
}
'''),
('pt_lt',PT,'fn: bool Point::operator<(','''
bool Point::operator<(const Point &other) const {
    const double tolerance = DelynoiConfig::instance()->getTolerance();
    const double dx = std::abs(this->x-other.x);
    const double dy = std::abs(this->y-other.y);

    if(dx>=tolerance){
        return this->x<other.x;
    }

    return dy>=tolerance && this->y<other.y;
}'''),
('pt_sq',PT,'fn: double Point::squareNorm()','''
double Point::squareNorm() {
    return x*x + y*y;
}'''),
('str',U,'fn:     std::string toStringWithPrecision(','''
    std::string toStringWithPrecision(double d, int precision){
        std::ostringstream out;
        out.setf(std::ios::fixed, std::ios::floatfield);
        out.precision(precision);
        out << d;

        return out.str();
    }'''),
('split',U,'fn:     std::vector<std::string> split(','''
    std::vector<std::string> split(std::string s, const std::regex regex) {
        std::vector<std::string> words;
        std::sregex_token_iterator end;

        for (std::sregex_token_iterator it(s.begin(), s.end(), regex, -1); it != end; ++it) {
            std::string word = it->str();

            if (word.size() > 0){
                words.push_back(word);
            }
        }

        return words;
    }'''),
('deg',U,'fn:     double degrees(','''
    double degrees(double angle){
        if(angle <= 0){
            angle = 2*M_PI + angle;
        }

        return angle*180/M_PI;
    }'''),
('open',U,'fn:     std::ifstream openFile(','''
    std::ifstream openFile(std::string fileName){
        std::ifstream stream(utilities::getPath() + fileName);

        if(stream.good()){
            return stream;
        }

        throw std::runtime_error("Could not open file. Please check path.");
    }'''),
('mesh_read',ME,'fn: void Mesh<T>::createFromStream(','''
void Mesh<T>::createFromStream(std::ifstream &infile, int startIndex) {
    std::string line;
    std::getline(infile, line);
    const int total = std::atoi(line.c_str());

    std::vector<int> pointIndex;
    pointIndex.reserve(total);

    int read = 0;
    while (read < total) {
        std::getline(infile, line);
        std::vector<std::string> words = utilities::splitBySpaces(line);

        if(words.size()<2){
            throw std::runtime_error("Invalid mesh file. Expected two coordinates per point.");
        }

        const double x = std::atof(words[0].c_str());
        const double y = std::atof(words[1].c_str());
        Point vertex(x, y);
        pointIndex.push_back(this->points.push_back(vertex));
        read++;
    }

    std::getline(infile, line);
    const int polygonsToRead = std::atoi(line.c_str());

    for (int i = 0; i < polygonsToRead; ++i) {
        std::getline(infile, line);
        std::vector<std::string> words = utilities::splitBySpaces(line);
        std::vector<int> polygonPoints;

        for (std::size_t j = 1; j < words.size(); ++j) {
            const int index = std::atoi(words[j].c_str()) - startIndex;

            if(index>=0 && index<total){
                polygonPoints.push_back(pointIndex[index]);
            } else {
                throw std::runtime_error("Invalid mesh file. Polygon refers to a point that does not exist.");
            }
        }

        const int polygonIndex = (int) this->polygons.size();
        T newPolygon(polygonPoints, this->points.getList());
        this->polygons.push_back(newPolygon);

        std::vector<IndexSegment> sides;
        newPolygon.getSegments(sides);

        for (const IndexSegment& side: sides){
            this->edges->insert(side, polygonIndex);
        }

        for (std::size_t j = 0; j < polygonPoints.size(); ++j){
            this->pointMap->insert(this->points[polygonPoints[j]], polygonIndex);
        }
    }
}'''),
('mesh_print',ME,'fn: void Mesh<T>::printInStream(','''
void Mesh<T>::printInStream(std::ofstream &file) {
    const int numberPoints = points.size();
    file << numberPoints << std::endl;
    for(int i=0;i<numberPoints;i++){
        Point p = points[i];
        file << p.getString() << std::endl;
    }

    file << this->edges->size() << std::endl;
    for(auto& e: this->edges->getMap()){
        file << e.first.getString() << std::endl;
    }

    file << this->polygons.size() << std::endl;
    for(T& polygon: this->polygons){
        file << polygon.getString() << std::endl;
    }
}'''),
('mesh_pif',ME,'fn: void Mesh<T>::printInFile(','''
void Mesh<T>::printInFile(std::string fileName) {
    std::ofstream file(utilities::getPath() + fileName, std::ios::out);
    file << std::fixed << std::setprecision(DelynoiConfig::instance()->getPrecision());

    this->printInStream(file);
    file.close();
}'''),
('mesh_ctor',ME,'fn: Mesh<T>::Mesh(std::vector<Point> &p,','''
Mesh<T>::Mesh(std::vector<Point> &p, std::vector<T> &e, SegmentMap* s, PointMap* pM) : polygons(e), edges(s), pointMap(pM) {
    for(Point& point: p){
        this->points.push_back(point);
    }
}'''),
('reg_print',RE,'fn: void Region::printInFile(','''
static void printPoints(std::ofstream& file, std::vector<Point>& points) {
    for(Point& p: points){
        file << p.getString() << std::endl;
    }
}

void Region::printInFile(std::string fileName) {
    std::ofstream file;
    file.open(utilities::getPath() + fileName, std::ios::out);

    std::vector<Point> points = this->getRegionPoints();

    file << points.size() + seedPoints.size() << std::endl;
    printPoints(file, points);
    printPoints(file, seedPoints);

    std::vector<IndexSegment> segments;
    this->getSegments(segments);

    file << segments.size() << std::endl;
    for(int i=0;i<segments.size();i++){
        file << segments[i].getString() << std::endl;
    }

    file << "0" << std::endl;

    file.close();
}'''),
('segmap_print',NB+'SegmentMap.cpp','fn: void SegmentMap::printInFile(','''
void SegmentMap::printInFile(std::string fileName) {
    std::ofstream file(utilities::getPath() + fileName);

    for(auto it = this->map.begin(); it != this->map.end(); ++it){
        file << it->first.getString() << " " << it->second.getString() << std::endl;
    }

    file.close();
}'''),
('segmap_ins',NB+'SegmentMap.cpp','fn: void SegmentMap::insert(IndexSegment s, int polygonIndex)','''
void SegmentMap::insert(IndexSegment s, int polygonIndex) {
    if(this->containsSegment(s)){
        this->map[s].setNeighbour(polygonIndex);
        return;
    }

    this->map[s] = NeighboursBySegment(polygonIndex);
}'''),
('segmap_has',NB+'SegmentMap.cpp','fn: bool SegmentMap::containsSegment(','''
bool SegmentMap::containsSegment(IndexSegment s) {
    return this->map.count(s) > 0;
}'''),
('ptmap_ins',NB+'PointMap.cpp','fn: void PointMap::insert(Point p, int neighbour)','''
void PointMap::insert(Point p, int neighbour) {
    this->map[p].add(neighbour);
}'''),
('ptmap_ins2',NB+'PointMap.cpp','fn: void PointMap::insert(Point &p, std::vector<int> &neighbours)','''
void PointMap::insert(Point &p, std::vector<int> &neighbours) {
    auto got = this->map.find(p);

    if(got != this->map.end()){
        got->second.insert(neighbours);
        return;
    }

    this->map.emplace(p, NeighboursByPoint(neighbours));
}'''),
('ptmap_print',NB+'PointMap.cpp','fn: void PointMap::printInFile(','''
void PointMap::printInFile(std::string fileName) {
    std::ofstream file;
    file.open(utilities::getPath() + fileName, std::ios::out);

    for(auto& entry : this->map){
        file << entry.first.getString() << " ";

        for(int polygon: entry.second.getNeighbours()){
            file << polygon << " ";
        }

        file << std::endl;
    }

    file.close();
}'''),
('edgedata',NB+'EdgeData.cpp','fn: void EdgeData::setTriangle(','''
void EdgeData::setTriangle(int t) {
    int& slot = this->t1==-1? this->t1 : this->t2;
    slot = t;
}'''),
('edgedata_eq',NB+'EdgeData.cpp','fn: bool EdgeData::operator==(','''
bool EdgeData::operator==(const EdgeData &other) const {
    if(this->p1 == other.p1 && this->p2 == other.p2){
        return true;
    }

    return this->p1 == other.p2 && this->p2 == other.p1;
}'''),
('third',TR,'fn: int Triangle::thirdPoint(','''
int Triangle::thirdPoint(EdgeData edge) {
    int a = this->points[0], b = this->points[1], c = this->points[2];

    if(a==edge.p1){
        return b==edge.p2? c : b;
    }

    if(b==edge.p1){
        return a==edge.p2? c : a;
    }

    return a==edge.p2? b : a;
}'''),
('nextEdge',TR,'fn: int Triangle::nextEdge(','''
int Triangle::nextEdge(int center, EdgeData edge, std::unordered_map<Key, int, KeyHasher>& edgeMap) {
    int other = this->thirdPoint(edge);

    return edgeMap[Key(center, other)];
}'''),
('tri_null',TR,'fn: bool Triangle::isNull()','''
bool Triangle::isNull() {
    return this->points.empty();
}'''),
('arc',S+'utilities/delynoi_utilities.cpp','fn:     std::vector<Point> generateArcPoints(','''
    std::vector<Point> generateArcPoints(Point center, double radius, double initAngle, double endAngle){
        const int steps = DelynoiConfig::instance()->getDiscretizationGrade();
        const double delta = (endAngle - initAngle)/steps;
        std::vector<Point> arc;
        arc.reserve(steps+1);

        int i = 0;
        while(i<=steps){
            const double radians = utilities::radian(initAngle + delta*i);
            arc.push_back(Point(center.getX() + radius*std::cos(radians), center.getY() + radius*std::sin(radians)));
            ++i;
        }

        return arc;
    }'''),
('trivial',S+'utilities/delynoi_utilities.cpp','fn:     void TrivialIndexVector(','''
    void TrivialIndexVector(std::vector<int>& index_vector, int n){
        int next = 0;
        while(next<n){
            index_vector.push_back(next++);
        }
    }'''),
('checktri',S+'utilities/delynoi_utilities.cpp','fn:     void checkTriangleIntegrity(','''
    void checkTriangleIntegrity(std::vector<int>& t){
        bool valid = t.size() == 3;

        if(valid){
            valid = t[0] != t[1] && t[1] != t[2] && t[2] != t[0];
        }

        if(!valid){
            throw std::invalid_argument("Invalid triangle detected. Stopping meshing.");
        }
    }'''),
('colseg',S+'utilities/geometryFunctions.cpp','fn:     bool collinear(PointSegment seg1','''
    bool collinear(PointSegment seg1, PointSegment seg2){
        Point a = seg1.getFirst();
        Point b = seg1.getSecond();

        if(!collinear(a, b, seg2.getFirst())){
            return false;
        }

        return collinear(a, b, seg2.getSecond());
    }'''),
('area1',S+'utilities/geometryFunctions.cpp','fn:     double area(std::vector<Point>& points){','''
    double area(std::vector<Point>& points){
        std::vector<int> all;
        delynoi_utilities::TrivialIndexVector(all, (int) points.size());

        return area(points, all);
    }'''),
('cont_edge',PO,'fn: bool Polygon::containsEdge(','''
bool Polygon::containsEdge(IndexSegment &s) {
    const int first = utilities::indexOf(this->points, s.getFirst());
    const int second = utilities::indexOf(this->points, s.getSecond());

    if(first==-1 || second==-1){
        return false;
    }

    const int distance = first>second? first-second : second-first;

    return distance==1 || distance==this->numberOfSides()-1;
}'''),
('pair_lt','lib/utilities/include/utilities/Pair.h','fn: bool Pair<T>::operator<(','''
bool Pair<T>::operator<(const Pair &other) const {
    return this->first==other.first? this->second<other.second : this->first<other.first;
}'''),
('gen_ctor',S+'models/generator/PointGenerator.cpp','fn: PointGenerator::PointGenerator(Functor *l,','''
PointGenerator::PointGenerator(Functor *l, functions::independent_variable variable) : variable(variable) {
    if(variable == functions::independent_variable::both){
        throw std::invalid_argument("Both x and y are free variables and only one creator function given");
    }

    if(variable == functions::independent_variable::x){
        this->lY = l;
    } else {
        this->lX = l;
    }
}'''),
('nbs_eq',NB+'NeighboursBySegment.cpp','fn: bool NeighboursBySegment::operator==(','''
bool NeighboursBySegment::operator==(const NeighboursBySegment &other) const{
    const bool same = n1==other.n1 && n2==other.n2;
    const bool swapped = n1==other.n2 && n2==other.n1;

    return same || swapped;
}'''),
('nbp_ins',NB+'NeighboursByPoint.cpp','fn: void NeighboursByPoint::insert(','''
void NeighboursByPoint::insert(std::vector<int> n) {
    for(int polygon: n){
        this->add(polygon);
    }
}'''),
]
