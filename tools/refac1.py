S='delynoi/src/'; I='delynoi/include/delynoi/'; PO=S+'models/polygon/Polygon.cpp'; RE=S+'models/Region.cpp'; SE=S+'models/basic/Segment.cpp'; UL='lib/utilities/include/utilities/UniqueList.h'
EDITS=[
('contains',PO,'fn: bool Polygon::containsPoint(','''
static bool straddles(const Point& a, const Point& b, const Point& q) {
    return a.getY()<=q.getY() && b.getY()>q.getY();
}

bool Polygon::containsPoint(std::vector<Point>& p, Point point) {
    bool inside = false;
    Point previous = p[points.back()];

    for (int v: points) {
        Point current = p[v];

        if(!(current == previous)){
            if (straddles(current, previous, point) || straddles(previous, current, point)) {
                double slope = (previous.getX()-current.getX())/(previous.getY()-current.getY());

                if (current.getX() + (point.getY()-current.getY())*slope<point.getX()){
                    inside = !inside;
                }
            }
            previous = current;
        }
    }

    return inside || inEdges(p,point);
}'''),
('diameter',PO,'fn: double Polygon::calculateDiameter(','''
double Polygon::calculateDiameter(std::vector<Point>& p) {
    double largest = -1;

    for(std::pair<Point,Point> pair: convex::rotatingCalipers(p)){
        largest = std::max(largest, delynoi_utilities::norm(pair.first - pair.second));
    }

    return largest;
}'''),
('signed',PO,'fn: double Polygon::signedArea(','''
double Polygon::signedArea(std::vector<Point>& p) {
    double positive = 0, negative = 0;
    int n = (int) this->points.size();

    for(int i=0;i<n;i++){
        Point a = p[points[i]], b = p[points[i+1<n? i+1 : 0]];
        positive += a.getX()*b.getY();
        negative += b.getX()*a.getY();
    }

    return (positive-negative)/2;
}'''),
('segs',PO,'fn: void Polygon::getSegments(','''
void Polygon::getSegments(std::vector<IndexSegment>& segments) {
    int n = (int) this->points.size();

    for(int i=1;i<n; i++){
        segments.push_back(IndexSegment(this->points[i-1], this->points[i]));
    }

    if(n>0){
        segments.push_back(IndexSegment(this->points[n-1], this->points[0]));
    }
}'''),
('centroid',PO,'fn: Point Polygon::calculateCentroid(','''
Point Polygon::calculateCentroid(std::vector<Point>& p) {
    double x = 0, y = 0;
    int n = this->points.size();

    for(int i=0;i<n;i++){
        Point pi = p[points[i]];
        Point pi1 = p[points[(i+1)%n]];
        double cross = pi.getX()*pi1.getY() - pi1.getX()*pi.getY();

        x += (pi.getX() + pi1.getX())*cross;
        y += (pi.getY() + pi1.getY())*cross;
    }

    double six = 6*this->signedArea(p);

    return Point (x/six, y/six);
}'''),
('convex',PO,'fn: bool Polygon::isConvex(','''
bool Polygon::isConvex(std::vector<Point>& p) {
    int n = (int) this->points.size();
    double turn = delynoi_utilities::orientation(p[this->points[0]],p[this->points[1]],p[this->points[2]]);
    bool convex = true;

    for(int i=1;i<n && convex; i++){
        double next = delynoi_utilities::orientation(p[this->points[i]],p[this->points[(i+1)%n]],p[this->points[(i+2)%n]]);
        turn = turn==0? next : turn;
        convex = !(turn*next<0);
    }

    return convex;
}'''),
('clockwise',PO,'fn: bool Polygon::isClockwise(','''
bool Polygon::isClockwise(std::vector<Point> &p) {
    int n = (int) points.size();
    double sum = 0;

    for(int i=0; i<n; i++){
        Point next = p[points[(i+1)%n]];
        Point current = p[points[i]];

        sum += (next.getX() - current.getX())*(next.getY() + current.getY());
    }

    return sum>0;
}'''),
('hash',PO,'fn: void Polygon::calculateHash(','''
void Polygon::calculateHash() {
    this->hash = 0;

    for (int v: points) {
        this->hash += utilities::hash32(v);
    }
}'''),
('ccw',PO,'fn: void Polygon::fixCCW(','''
void Polygon::fixCCW(std::vector<Point> &p) {
    if(!isClockwise(p)){
        return;
    }

    this->area = -1;
    std::reverse(this->points.begin(), this->points.end());
}'''),
('pts',PO,'fn: std::vector<Point> Polygon::getPoints(std::vector<Point> &p)','''
std::vector<Point> Polygon::getPoints(std::vector<Point> &p) {
    std::vector<Point> coordinates;
    coordinates.reserve(this->points.size());

    for (int v: this->points) {
        coordinates.push_back(p[v]);
    }

    return coordinates;
}'''),
('selfi',PO,'fn: bool Polygon::isSelfIntersecting(','''
static bool adjacent(int i, int j, int n) {
    return j==i || j==(i+1)%n || i==(j+1)%n;
}

bool Polygon::isSelfIntersecting(std::vector<Point>& points) {
    std::vector<int> vertices;
    for (int v: this->points){
        if(vertices.empty() || !(points[v]==points[vertices.back()])){
            vertices.push_back(v);
        }
    }

    while(vertices.size()>1 && points[vertices.back()]==points[vertices.front()]){
        vertices.pop_back();
    }

    int n = vertices.size();
    Point unused;

    for (int i = 0; i < n; ++i) {
        IndexSegment first(vertices[i], vertices[(i+1)%n]);
        for (int j = 0; j < n; ++j) {
            IndexSegment second(vertices[j], vertices[(j+1)%n]);
            if(!adjacent(i,j,n) && first.intersection(points,second,unused)){
                return true;
            }
        }
    }
    return false;
}'''),
('mutate',PO,'fn: Polygon::Polygon(std::vector<Point> &p) {','''
Polygon::Polygon(std::vector<Point> &p) {
    this->mutate(p);
}'''),
('average',PO,'fn: Point Polygon::getAverage(','''
Point Polygon::getAverage(std::vector<Point> &p) {
    int n = this->numberOfSides();
    double x = 0, y = 0;

    for (int i=0; i<n; i++){
        x += p[points[i]].getX();
        y += p[points[i]].getY();
    }

    return Point(x/n,y/n);
}'''),
('maxd',PO,'fn: double Polygon::getMaxDistance(','''
double Polygon::getMaxDistance(std::vector<Point> &points) {
    double longest = LLONG_MIN;
    std::vector<IndexSegment> sides;
    this->getSegments(sides);

    for (IndexSegment s: sides) {
        longest = std::max(longest, s.length(points));
    }

    return longest;
}'''),
('clean',RE,'fn: void Region::clean()','''
void Region::clean() {
    std::vector<Point> kept;

    for(Point seed: this->seedPoints){
        if(!Polygon::containsPoint(p,seed)){
            continue;
        }

        bool inHole = false;
        for (int j=0; j<this->holes.size() && !inHole; j++){
            inHole = this->holes[j].containsPoint(seed);
        }

        if(!inHole){
            kept.push_back(seed);
        }
    }

    this->seedPoints.swap(kept);
}'''),
('addhole',RE,'fn: void Region::addHole(Hole h)','''
static ClipperLib::Path scaledPath(const std::vector<Point>& points, int scale) {
    ClipperLib::Path path;

    for(const Point& point: points){
        path << ClipperLib::IntPoint((ClipperLib::cInt)(scale*point.getX()), (ClipperLib::cInt)(scale*point.getY()));
    }

    return path;
}

void Region::addHole(Hole h) {
    DelynoiConfig* config = DelynoiConfig::instance();
    std::vector<Point> holePoints = h.getPoints();
    ClipperLib::Path region = scaledPath(this->p, config->getScale());
    ClipperLib::Path hole = scaledPath(holePoints, config->getScale());
    ClipperLib::Paths solution;

    ClipperLib::Clipper clipper;
    clipper.AddPath(region, ClipperLib::ptSubject, true);
    clipper.AddPath(hole, ClipperLib::ptClip, true);
    clipper.Execute(ClipperLib::ctIntersection, solution, ClipperLib::pftNonZero, ClipperLib::pftNonZero);

    if(solution.size()==0){
        throw std::invalid_argument("Hole lies completely outside of domain region");
    }

    clipper.Execute(ClipperLib::ctDifference, solution, ClipperLib::pftNonZero, ClipperLib::pftNonZero);

    if(solution.size()!=1){
        if(!Polygon::containsPoint(this->p, h.getCenter())){
            throw std::invalid_argument("Hole lies completely outside of domain region");
        }

        this->holes.push_back(h);
        this->clean();
        return;
    }

    std::vector<Point> newPoints;
    for(const ClipperLib::IntPoint& c: solution[0]){
        newPoints.push_back(Point(c.X/(1.0*config->getScale()), c.Y/(1.0*config->getScale())));
    }

    this->mutate(newPoints);
}'''),
('box',RE,'fn: BoundingBox Region::getBox()','''
BoundingBox Region::getBox() {
    double xMin = LLONG_MAX, xMax = LLONG_MIN;
    double yMin = LLONG_MAX, yMax = LLONG_MIN;

    for(int i=0; i<p.size(); i++){
        xMin = std::min(xMin, p[i].getX());
        xMax = std::max(xMax, p[i].getX());
        yMin = std::min(yMin, p[i].getY());
        yMax = std::max(yMax, p[i].getY());
    }

    return BoundingBox(Point(xMin,yMin), Point(xMax,yMax));
}'''),
('rpoints',RE,'fn: std::vector<Point> Region::getRegionPoints()','''
std::vector<Point> Region::getRegionPoints() {
    std::vector<Point> points = this->p;

    for(Hole& hole: this->holes){
        for(Point point: hole.getPoints()){
            points.push_back(point);
        }
    }

    return points;
}'''),
('rsegs',RE,'fn: void Region::getSegments(','''
void Region::getSegments(std::vector<IndexSegment> &s) {
    int offset = (int) this->p.size();
    Polygon::getSegments(s);

    for(int i=0; i<this->holes.size(); i++){
        Hole h = this->holes[i];
        int count = (int) h.getPoints().size();
        h.getSegments(s, offset);
        offset = offset + count;
    }
}'''),
('rctor',RE,'fn: Region::Region(const Polygon &other','''
Region::Region(const Polygon &other, std::vector<Point>& points) : Polygon() {
    for (int v: other.getPoints()) {
        this->p.push_back(points[v]);
    }

    Polygon::mutate(this->p);
}'''),
('segcontains',SE,'fn: template <class T>\nbool Segment<T>::contains(','''
static bool between(double v, double a, double b, double tolerance) {
    bool afterA = v>=a || std::abs(v-a)<tolerance, beforeB = v<=b || std::abs(v-b)<tolerance;
    bool afterB = v>=b || std::abs(v-b)<tolerance, beforeA = v<=a || std::abs(v-a)<tolerance;

    return (afterA && beforeB) || (afterB && beforeA);
}

template <class T>
bool Segment<T>::contains(Point point, Point p1, Point p2) {
    double tolerance = DelynoiConfig::instance()->getTolerance();

    if(!between(point.getX(), p1.getX(), p2.getX(), tolerance) || !between(point.getY(), p1.getY(), p2.getY(), tolerance)){
        return false;
    }

    double doubledArea = p1.getX()*(p2.getY()-point.getY()) + p2.getX()*(point.getY()-p1.getY()) + point.getX()*(p1.getY()-p2.getY());
    return std::abs(doubledArea)<tolerance;
}'''),
('segint',SE,'fn: template <class T>\nbool Segment<T>::intersects(','''
template <class T>
bool Segment<T>::intersects(Point p1, Point p2, Point o1, Point o2, Point &inter) {
    double tolerance = DelynoiConfig::instance()->getTolerance();
    Point d1 = p2 - p1, d2 = o2 - o1, between = p1 - o1;
    double denominator = d1.getX()*d2.getY() - d2.getX()*d1.getY();
    double s = (d1.getX()*between.getY() - d1.getY()*between.getX())/denominator;
    double t = (d2.getX()*between.getY() - d2.getY()*between.getX())/denominator;

    if (!(s >= -tolerance && s <= 1+tolerance)){
        return false;
    }
    if (!(t >= -tolerance && t <= 1+tolerance)){
        return false;
    }

    inter.setX(p1.getX() + t*d1.getX());
    inter.setY(p1.getY() + t*d1.getY());
    return true;
}'''),
('iseq',S+'models/basic/IndexSegment.cpp','fn: bool IndexSegment::operator==(','''
bool IndexSegment::operator==(const IndexSegment& other) const {
    if(this->p1==other.p1){
        return this->p2==other.p2;
    }

    return this->p1==other.p2 && this->p2==other.p1;
}'''),
('isless',S+'models/basic/IndexSegment.cpp','fn: bool IndexSegment::operator<(','''
bool IndexSegment::operator<(const IndexSegment &other) const {
    std::pair<int,int> mine(std::min(this->p1, this->p2), std::max(this->p1, this->p2));
    std::pair<int,int> theirs(std::min(other.p1, other.p2), std::max(other.p1, other.p2));

    return mine<theirs;
}'''),
('order',S+'models/basic/IndexSegment.cpp','fn: void IndexSegment::orderCCW(','''
void IndexSegment::orderCCW(const std::vector<Point>& points, Point center) {
    if(this->isCCW(points, center)){
        return;
    }
    std::swap(this->p1, this->p2);
}'''),
('bbw',S+'models/polygon/BoundingBox.cpp','fn: double BoundingBox::getWidth()','''
double BoundingBox::getWidth() {
    return xMax() - xMin();
}'''),
('bbc',S+'models/polygon/BoundingBox.cpp','fn: bool BoundingBox::contains(','''
bool BoundingBox::contains(Point p) {
    if(p.getX()<xMin() || xMax()<p.getX()){
        return false;
    }

    return !(p.getY()<yMin() || yMax()<p.getY());
}'''),
('hull',S+'utilities/convexHull.cpp','fn:     void convexHull(','''
    void extend(std::vector<Point>& chain, Point next, int side){
        while(chain.size()>1 && side*delynoi_utilities::orientation(chain[chain.size()-2], chain.back(), next)>=0){
            chain.pop_back();
        }
        chain.push_back(next);
    }

    void convexHull(std::vector<Point>& points, std::vector<Point>& upper, std::vector<Point>& lower){
        std::sort(points.begin(), points.end(), comparator);

        for(Point next: points){
            extend(upper, next, 1);
            extend(lower, next, -1);
        }
    }'''),
('calipers',S+'utilities/convexHull.cpp','fn:     std::vector<std::pair<Point,Point> > rotatingCalipers(','''
    std::vector<std::pair<Point,Point> > rotatingCalipers(std::vector<Point>& points) {
        std::vector<Point> u, l;
        convexHull(points,u,l);

        std::vector<std::pair<Point, Point> > pairs;
        int last = u.size()-1;
        int i = 0, j = l.size() - 1;

        while (i < last || j > 0) {
            pairs.push_back(std::make_pair(u[i], l[j]));

            bool forward;
            if (i == last){
                forward = false;
            } else if (j == 0){
                forward = true;
            } else {
                Point e = u[i + 1] - u[i], f = l[j] - l[j - 1];
                forward = e.getY()*f.getX() > f.getY()*e.getX();
            }

            if(forward) i++; else j--;
        }

        return pairs;
    }'''),
('generate',S+'models/generator/PointGenerator.cpp','fn: void PointGenerator::generate(','''
void PointGenerator::generate(std::vector <Point> &vector, BoundingBox box, int nX, int nY) {
    double dX = 0, dY = 0;
    if(nX>1) dX = box.getWidth()/(nX-1);
    if(nY>1) dY = box.getHeight()/(nY-1);

    for(int row = 0; row<nY; row++){
        double y = box.yMin() + row*dY;

        for(int column = 0; column<nX; column++){
            vector.push_back(result(box.xMin() + column*dX, y));
        }
    }
}'''),
('result',S+'models/generator/PointGenerator.cpp','fn: Point PointGenerator::result(','''
Point PointGenerator::result(double x, double y) {
    if(variable==functions::independent_variable::x){
        double displaced = y + this->lY->apply(x);
        return Point(x, displaced);
    }
    if(variable==functions::independent_variable::y){
        double displaced = x + this->lX->apply(y);
        return Point(displaced, y);
    }
    double newX = this->lX->apply(x);
    double newY = this->lY->apply(y);
    return Point(newX, newY);
}'''),
('circum',S+'models/polygon/Triangle.cpp','fn: Point Triangle::calculateCircumcenter(','''
Point Triangle::calculateCircumcenter(std::vector<Point>& p){
    Point A = p[this->points[0]];
    Point b = p[this->points[1]] - A;
    Point c = p[this->points[2]] - A;
    double d = 2*(b.getX()*c.getY() - b.getY()*c.getX());
    double uX = (c.getY()*b.squareNorm() - b.getY()*c.squareNorm())/d;
    double uY = (b.getX()*c.squareNorm() - c.getX()*b.squareNorm())/d;

    return Point(A.getX() + uX, A.getY() + uY);
}'''),
('disc',S+'models/polygon/Circle.cpp','fn: std::vector<Point> Circle::discretizeCircle()','''
std::vector<Point> Circle::discretizeCircle() {
    int grade = DelynoiConfig::instance()->getDiscretizationGrade();
    double step = 360.0/grade;
    std::vector<Point> points;

    for (int i = 0; i < grade; ++i) {
        double radians = utilities::radian(i*step);
        points.push_back(Point(center.getX() + radius*cos(radians), center.getY() + radius*sin(radians)));
    }

    return points;
}'''),
('polyhole',S+'models/hole/PolygonalHole.cpp','fn: PolygonalHole::PolygonalHole(','''
PolygonalHole::PolygonalHole(std::vector<Point>& p) : Polygon(p) {
    this->HolePoints.assign(p.begin(), p.end());
    Polygon::getSegments(this->segments);
    this->center = this->getCentroid(p);
}'''),
('ulpush',UL,'fn: template <class T>\nint UniqueList<T>::push_back(T& item) {','''
template <class T>
int UniqueList<T>::push_back(T& item) {
    auto it = map.find(item);

    if (it != map.end()) {
        return it->second;
    }

    int position = (int) list.size();
    map.insert(std::make_pair(item, position));
    list.push_back(item);

    return position;
}'''),
('ullist',UL,'fn: template <class T>\nstd::vector<int> UniqueList<T>::push_list(std::vector<T>& list) {','''
template <class T>
std::vector<int> UniqueList<T>::push_list(std::vector<T>& list) {
    std::vector<int> index;
    index.reserve(list.size());

    for(T& element: list){
        int position = this->push_back(element);
        index.push_back(position);
    }

    return index;
}'''),
('uldel',UL,'fn: template <class T>\nvoid UniqueList<T>::delete_element(','''
template <class T>
void UniqueList<T>::delete_element(T item) {
    auto iter = map.find(item);
    if(iter==map.end()){
        return;
    }

    this->list.erase(this->list.begin() + iter->second);
    this->map.clear();

    int position = 0;
    for (T e: this->list){
        map.insert(std::make_pair(e, position));
        position++;
    }
}'''),
('segins',S+'models/neighbourhood/SegmentMap.cpp','fn: void SegmentMap::insert(IndexSegment s, int polygonIndex) {','''
void SegmentMap::insert(IndexSegment s, int polygonIndex) {
    if(this->map.count(s)==0){
        this->map[s] = NeighboursBySegment(polygonIndex);
    }else{
        this->map.at(s).setNeighbour(polygonIndex);
    }
}'''),
('ptins',S+'models/neighbourhood/PointMap.cpp','fn: void PointMap::insert(Point p, int neighbour) {','''
void PointMap::insert(Point p, int neighbour) {
    NeighboursByPoint& record = this->map[p];
    record.add(neighbour);
}'''),
('settri',S+'models/neighbourhood/EdgeData.cpp','fn: void EdgeData::setTriangle(','''
void EdgeData::setTriangle(int t) {
    int& slot = this->t1==-1? this->t1 : this->t2;
    slot = t;
}'''),
('initmesh',I+'voronoi/TriangleDelaunayGenerator.h','fn:     template <typename T>\n    Mesh<T> initializeMesh()','''
    template <typename T>
    Mesh<T> initializeMesh(){
        UniqueList<Point> points;
        std::vector<int> indexes = points.push_list(this->meshPoints);
        SegmentMap* meshEdges = new SegmentMap;
        PointMap* pointMap = new PointMap;
        std::vector<T> polygons;

        for (int i = 0; i < this->edges.size(); i++) {
            EdgeData& e = this->edges[i];
            IndexSegment side(indexes[e.p1], indexes[e.p2]);
            meshEdges->insert(side, NeighboursBySegment(e.t1, e.t2));
        }

        int number = 0;
        for (Triangle t: this->triangles) {
            std::vector<int> corners;

            for (int v: t.getPoints()) {
                int corner = indexes[v];
                corners.push_back(corner);
                pointMap->insert(points[corner], number);
            }

            delynoi_utilities::checkTriangleIntegrity(corners);
            polygons.push_back(T(corners, points.getList()));
            number++;
        }

        return Mesh<T>(points, polygons, meshEdges, pointMap);
    }'''),
('calltri1',S+'voronoi/TriangleDelaunayGenerator.cpp','''    int points = 0;

    for(int i=0;i<pointList.size();i++){
        in.pointlist[points] = pointList[i].getX();
        in.pointlist[points+1] = pointList[i].getY();
        in.pointattributelist[i] = 0.0;
        points+=2;
    }
''','''
    for(int i=0;i<pointList.size();i++){
        Point& current = pointList[i];
        in.pointattributelist[i] = 0.0;
        in.pointlist[2*i] = current.getX();
        in.pointlist[2*i+1] = current.getY();
    }
'''),
('calltri2',S+'voronoi/TriangleDelaunayGenerator.cpp','''        int i1 = edgeMap[Key(out.trianglelist[3*i], out.trianglelist[3*i+1])];
        int i2 = edgeMap[Key(out.trianglelist[3*i+1], out.trianglelist[3*i+2])];
        int i3 = edgeMap[Key(out.trianglelist[3*i+2], out.trianglelist[3*i])];

        this->edges[i1].setTriangle(i);
        this->edges[i2].setTriangle(i);
        this->edges[i3].setTriangle(i);
''','''        for(int j=0;j<3;j++){
            int side = edgeMap[Key(triangle_points[j], triangle_points[(j+1)%3])];
            this->edges[side].setTriangle(i);
        }
'''),
('calltri3',S+'voronoi/TriangleDelaunayGenerator.cpp','''        realPoints.push_back(out.trianglelist[3*i]);
        realPoints.push_back(out.trianglelist[3*i+1]);
        realPoints.push_back(out.trianglelist[3*i+2]);
''','''        realPoints.push_list(triangle_points);
'''),
('calltri4',S+'voronoi/TriangleDelaunayGenerator.cpp','''    for(int i=0;i<out.numberofedges;i++) {
        EdgeData data(out.edgelist[2*i], out.edgelist[2*i+1]);
        this->edges.push_back(data);
        edgeMap.insert(std::make_pair(Key(out.edgelist[2*i], out.edgelist[2*i+1]),i));
        this->points[out.edgelist[2*i]].setEdge(i, out.edgemarkerlist[i]);
        this->points[out.edgelist[2*i+1]].setEdge(i, out.edgemarkerlist[i]);
    }
''','''    for(int i=0;i<out.numberofedges;i++) {
        int from = out.edgelist[2*i], to = out.edgelist[2*i+1];
        int marker = out.edgemarkerlist[i];
        this->points[from].setEdge(i, marker);
        this->points[to].setEdge(i, marker);
        edgeMap.insert(std::make_pair(Key(from, to),i));
        this->edges.push_back(EdgeData(from, to));
    }
'''),
]
