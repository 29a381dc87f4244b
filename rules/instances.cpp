// every template of the library, with the element types the library itself uses: read by rules/headers.py, never linked
#include <map>
#include <utilities/Pair.h>
#include <utilities/UniqueList.h>
#include <utilities/maputils.h>
#include <utilities/utilities.h>
#include <delynoi/models/Mesh.h>
#include <delynoi/models/basic/Segment.h>
#include <delynoi/models/polygon/Triangle.h>
#include <delynoi/voronoi/TriangleDelaunayGenerator.h>
template class Pair<int>;
template class Pair<double>;
template class UniqueList<int>;
template class UniqueList<Point>;
template class Mesh<Polygon>;
template class Mesh<Triangle>;
void instances(std::map<int, double>& m, TriangleDelaunayGenerator& g){
    std::pair<int, double> e(1, 2.0);
    int k = map_utils::GetKeys()(e); double v = map_utils::GetValues()(e);
    utilities::indexOf(std::vector<int>(1, k), 1); utilities::sign(v); utilities::toString<int>(1); utilities::toString<double>(1);
    Mesh<Polygon> a = g.initializeMesh<Polygon>(); Mesh<Triangle> b = g.initializeMesh<Triangle>();
}
