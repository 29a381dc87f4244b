#!/usr/bin/env python3
"""Single source of properties.jsonl and MANIFEST.json: run it after editing."""
import json, os
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
S = 'delynoi/src/'; I = 'delynoi/include/delynoi/'
P = []
def prop(id, title, statement, over, qtext, why, files, mech, note=None, na=None, technique='value-graph comparison against a reference specification (abstract interpretation of clang AST)', level_note=None, observe=None):
    P.append(dict(id=id, title=title, statement=statement, over=over, qtext=qtext, why=why, files=files, mech=mech, na=na, technique=technique, level_note=level_note, observe=observe))
NOTE = ('Decides the property for all inputs at once by normalising the value graph of each entry point and comparing it with a reference; real arithmetic stands for '
        'floating point, the standard library is modelled, sizes fit their types. Where two graphs differ, the difference is reported only when it is a difference in behaviour: an assignment of values to the '
        'leaves of both graphs (coherent with the invariants of the objects they come from) must tell them apart, or both must be fully interpreted and of the same loops. What cannot be decided is counted as undecided in the evidence and raises no alarm. ')

prop('C01', 'Circumcentres are equidistant from the vertices and correctly indexed',
 'For every non-degenerate triangle the circumcentre the library computes lies at the same distance from its three vertices, whatever the order in which the vertices are listed. When a triangle is built with a centre list, the centre is entered in that list and the index the triangle reports is the position where the list holds it; without a list the index is -1.',
 ['inputs'], 'every vertex triple (any coordinates, either orientation), every centre list content, all three ways of building a triangle',
 'Tests build a few meshes and look at cells; equidistance is an identity over all real coordinates and the index must be right for every list state.',
 [S+'models/polygon/Triangle.cpp', I+'models/polygon/Triangle.h'], [('Triangle constructors and circumcentre', S+'models/polygon/Triangle.cpp')])

prop('C02', 'Area, orientation, centroid and vertex measures follow the closed vertex ring',
 'The (signed) area, orientation, centroid, vertex average, convexity, longest side, edges and vertex list of a polygon, and the free area, cross product, orientation and collinearity functions, equal their mathematical definition on the closed ring of its vertices. A polygon is clockwise exactly when its signed area is negative, and making it counter-clockwise reverses the vertex ring exactly in that case.',
 ['inputs'], 'every polygon of any number of vertices and any coordinates',
 'Tests measure a few small polygons; the formulas must hold for every vertex count, orientation and coordinate.',
 [S+'models/polygon/Polygon.cpp', S+'utilities/geometryFunctions.cpp', S+'utilities/delynoi_utilities.cpp'],
 [('polygon measures', S+'models/polygon/Polygon.cpp'), ('free geometry functions', S+'utilities/geometryFunctions.cpp')])

prop('C03', 'Segment geometry: containment, intersection, length, angle',
 'For point segments and index segments alike: a point is contained exactly when it is collinear with and between the ends (within the configured tolerance); two segments intersect exactly when the solution of the two line equations lies on both segments (within the tolerance) and the reported point is that solution; length, angle, middle point, side test, ordering and end-point tests equal their definition. Swapping the ends does not change containment.',
 ['inputs'], 'every pair of segments and every point, in any position (vertical, horizontal, parallel, touching)',
 'Tests reach a handful of positions; the answers must be right for all of them, and both segment kinds must agree.',
 [S+'models/basic/Segment.cpp', S+'models/basic/IndexSegment.cpp', S+'models/basic/PointSegment.cpp', I+'models/basic/Segment.h'],
 [('segment predicates', S+'models/basic/Segment.cpp'), ('index segment predicates', S+'models/basic/IndexSegment.cpp')])

prop('C04', 'Convex hull, antipodal pairs and diameter',
 'For every set of points the convex hull is given as its upper and lower chain from left to right (ties by y), each turning strictly in one direction; rotating calipers yields the pairs met when the upper chain is walked forwards and the lower backwards along the edge of smaller slope; the diameter of a polygon is the largest distance over these pairs of its own vertices, and is computed from a copy that leaves the points as they were.',
 ['inputs'], 'every point set and every polygon over any point list',
 'Tests never compute a hull; the chain conditions must hold for every configuration including vertical and collinear points.',
 [S+'utilities/convexHull.cpp', S+'models/polygon/Polygon.cpp'], [('convex hull and calipers', S+'utilities/convexHull.cpp'), ('polygon diameter', S+'models/polygon/Polygon.cpp')])

prop('C05', 'Questions about an object change nothing',
 'Asking a polygon, region, hole, segment, box, point or triangle for a measure, a list of its points or edges, a string, a comparison, containment or an intersection leaves the vertex ring, points, seeds and holes of the object and every argument (points, other operands) exactly as they were. Building a polygon or fixing its orientation does not change the points it is given.',
 ['inputs','histories'], 'every object state and every query',
 'A query that reorders or alters its operands is only seen by code that uses them afterwards, which the tests do not.',
 [S+'models/polygon/Polygon.cpp', S+'models/Region.cpp', S+'utilities/convexHull.cpp'], [('polygon queries', S+'models/polygon/Polygon.cpp'), ('region queries', S+'models/Region.cpp')])

prop('C06', 'Equality, hashing and ordering of value types are coherent',
 'Points, segments, edges, keys, pairs, boxes, angles, neighbour records and polygons compare by what they denote: undirected segments, edges, keys and boxes are equal in either direction, points when both coordinates agree within the tolerance, pairs member by member, polygons when their hash and set of vertices agree. Equal objects hash equally however they were built, copied, shifted, reoriented or modified, and every order is irreflexive, asymmetric and never separates equal objects.',
 ['inputs'], 'every pair of values of each type',
 'The containers silently lose or duplicate entries when hash, equality and order disagree for some pair of values; tests only use a few pairs.',
 [I+'models/basic/IndexSegment.h', S+'models/basic/Point.cpp', S+'models/polygon/Polygon.cpp', I+'voronoi/structures/mapdata.h', 'lib/utilities/include/utilities/Pair.h', I+'models/basic/Angle.h', S+'models/neighbourhood/EdgeData.cpp', S+'models/neighbourhood/NeighboursBySegment.cpp', S+'models/polygon/BoundingBox.cpp'],
 [('segment hasher', I+'models/basic/IndexSegment.h'), ('polygon hash and comparison', S+'models/polygon/Polygon.cpp'), ('point comparison', S+'models/basic/Point.cpp')])

prop('C07', 'Point in polygon follows the even-odd rule with the border inside',
 'A point is contained in a polygon, in a hole or in the boundary of a region exactly when it lies on an edge of the closed vertex ring (within the tolerance) or is inside by the even-odd crossing rule. Polygons, holes and regions built on the same ring give the same answer for every point, independently of the seeds and holes a region holds.',
 ['inputs'], 'every simple or repeated-vertex ring and every point, including points level with a vertex or on an edge',
 'The delicate positions (through a vertex, on the closing edge) form a measure-zero set that sampled points never reach.',
 [S+'models/polygon/Polygon.cpp', I+'models/hole/Hole.h', S+'models/Region.cpp'],
 [('even-odd loop and edge test', S+'models/polygon/Polygon.cpp'), ('hole containment', I+'models/hole/Hole.h')])

prop('C08', 'Invalid polygons are detected and refused',
 'A polygon is reported as self intersecting exactly when two edges that are not neighbours in its vertex ring have a common point (within the tolerance), where vertices repeated one after the other count once. Building a polygon or region from a point list, building a region from a polygon, and changing either to a new point list are refused (std::invalid_argument) exactly when the ring is self intersecting, and otherwise take the ring as given. A polygon built from indices in a point list keeps these indices.',
 ['inputs'], 'every vertex ring', 'Tests never build an invalid polygon; detection must work for any pair of crossing edges.',
 [S+'models/polygon/Polygon.cpp', S+'models/Region.cpp'], [('self-intersection test', S+'models/polygon/Polygon.cpp'), ('constructors and mutate', S+'models/polygon/Polygon.cpp')])

prop('C09', 'Measures follow the current vertices of a polygon',
 'Area, diameter, centroid and hash of a polygon or region depend only on its current vertices: after asking for a measure and then changing the polygon (mutate, fixCCW), copying it, or asking again, the answers are those of a fresh polygon with the same vertices.',
 ['histories'], 'every order of asking, copying and changing a polygon',
 'Cached values go stale only in particular sequences of operations that no test performs.',
 [S+'models/polygon/Polygon.cpp', S+'models/Region.cpp'], [('cached area, diameter, centroid, hash', S+'models/polygon/Polygon.cpp')])

prop('C10', 'Regions keep exactly the allowed seed points',
 'After seed points are added one list at a time, generated by any generator over the box of the region, or read from a file, and after the region is changed to another ring, its seeds are, in the order in which they were given, exactly those inside the boundary (border included) and outside every hole. Clearing seeds removes all of them, clearing holes removes the holes and keeps the seeds, a new region has neither, and adding seeds changes nothing else of the region or its arguments.',
 ['inputs','histories'], 'every region, hole list, seed list, generator and file',
 'Tests add all seeds inside; filtering must be right for every position and every order of operations.',
 [S+'models/Region.cpp'], [('seed clean-up', S+'models/Region.cpp'), ('seed input', S+'models/Region.cpp')])

prop('C11', 'Holes are cut out of the region or registered',
 'Adding a hole that has no common area with the boundary is refused; a hole whose removal leaves the boundary in one piece is cut out of it, which changes both the points and the vertex ring; otherwise a hole whose centre is inside is registered and one whose centre is outside refused. In each case the seeds are filtered again. Points and edges of a region list the boundary and then every hole, with the edges of a hole shifted by the number of points before it. Polygonal and circular holes consist of the given ring (of the discretised circle), its edges and its centre.',
 ['inputs','histories'], 'every region, hole and sequence of additions; the clipping library itself is taken as given',
 'Tests add a few holes and check nothing about the outcome.',
 [S+'models/Region.cpp', S+'models/hole/clipper/ClipperWrapper.cpp', I+'models/hole/Hole.h', S+'models/hole/CircularHole.cpp', S+'models/hole/PolygonalHole.cpp', S+'models/polygon/Circle.cpp'],
 [('hole insertion', S+'models/Region.cpp'), ('clipping calls', S+'models/hole/clipper/ClipperWrapper.cpp')])

prop('C12', 'Bounding boxes',
 'The box of a region is the smallest one around its boundary points. For a box given by any two opposite corners, in any order, the minima, maxima, width, height and four sides are those of the rectangle and containment is the closed rectangle test.',
 ['inputs'], 'every region and every pair of corners', 'Tests only build boxes from lower-left and upper-right corners.',
 [S+'models/polygon/BoundingBox.cpp', S+'models/Region.cpp'], [('box', S+'models/polygon/BoundingBox.cpp'), ('region box', S+'models/Region.cpp')])

prop('C13', 'Point generators cover the box in a regular grid',
 'Generating nx by ny points over a box appends exactly nx*ny points, row by row from bottom to top and each row from left to right, on the regular grid whose first and last columns and rows lie on the sides of the box (one column or row lies on the minimum side), each grid coordinate passed through its functor, or displaced by the functor of the other coordinate. The functors are asked once per point in that order. A generator with one functor for both coordinates at once is refused. A discretised circle consists of the configured number of points at equal angles.',
 ['inputs'], 'every box, grid size and functor', 'Tests sample a few generators and never look at the points.',
 [S+'models/generator/PointGenerator.cpp', S+'models/polygon/Circle.cpp'], [('generate', S+'models/generator/PointGenerator.cpp')])

prop('C14', 'Functors compute their documented function',
 'constant, uniform, sine and cosine return x, d*x, a*sin(pi f x + p) and a*cos(pi f x + p) with the phase in degrees; displacing functors displace every other call by half the displacement starting with the first and do not influence each other; constantAlternating displaces every other row by half the column distance; random functors return a value of their interval and noise functors deviate from the wrapped functor by a value of the interval in either direction.',
 ['inputs','histories'], 'every parameter, coordinate and sequence of calls, whatever the random numbers',
 'Tests never check functor values; random ones cannot be settled by samples.',
 [S+'models/generator/functions/FunctorClasses.cpp', S+'models/generator/functions/functions.cpp', S+'models/generator/noise/RandomDoubleNoise.cpp', 'lib/utilities/include/utilities/utilities.h'], [('functors', S+'models/generator/functions/FunctorClasses.cpp'), ('random helpers', 'lib/utilities/include/utilities/utilities.h')])

prop('C15', 'UniqueList keeps every element once and knows its position',
 'A UniqueList returns for every pushed element (or list) the position where the list holds it, appending it only if it is not there; membership, position lookup, equality, common elements, size and element access answer for the current content; clearing empties it; removing an element keeps the order of the others and all later lookups and pushes use their new positions; copies are equal to and independent of the original.',
 ['histories'], 'every sequence of pushes, removals, clears and copies, over ints, doubles and points',
 'Index bookkeeping breaks only after particular sequences (push after removal); tests do not remove.',
 ['lib/utilities/include/utilities/UniqueList.h'], [('list and map', 'lib/utilities/include/utilities/UniqueList.h')])

prop('C16', 'Neighbour structures record every element of a segment or point',
 'The segment map keeps per undirected segment the first element registered and the latest one after it (-1 where there is none) and answers the same in either direction; the point map keeps per point all elements registered, in order. Neighbour records hold the elements they were built with (-1 for a missing one) and a setter changes only the element it names. A Delaunay edge takes its triangles in order (first, then second); a Delaunay point takes its first edge, or the latest on the border. A mesh takes over every distinct point, the elements and the maps it is built from and hands out exactly these.',
 ['histories'], 'every sequence of insertions and lookups, any order of the ends of a segment',
 'Tests only fill these maps through a whole mesh and never look at their content.',
 [S+'models/neighbourhood/SegmentMap.cpp', S+'models/neighbourhood/PointMap.cpp', S+'models/neighbourhood/NeighboursBySegment.cpp', S+'models/neighbourhood/NeighboursByPoint.cpp', S+'models/neighbourhood/EdgeData.cpp', S+'voronoi/structures/PointData.cpp'],
 [('segment map', S+'models/neighbourhood/SegmentMap.cpp'), ('point map', S+'models/neighbourhood/PointMap.cpp'), ('edge records', S+'models/neighbourhood/EdgeData.cpp')])

prop('C17', 'Asking a mesh generator again gives the same answer',
 'A Delaunay generator answers each request from its seeds, region and the request alone: the triangulation data or mesh given for a request does not depend on which requests (conforming, constrained, with restricted segments) it answered before.',
 ['histories'], 'every seed list, region and pair of successive requests',
 'Every test uses a generator once.',
 [S+'voronoi/TriangleDelaunayGenerator.cpp'], [('request state', S+'voronoi/TriangleDelaunayGenerator.cpp')])

prop('C18', 'The triangulator is asked for the right planar graph',
 'A Delaunay request hands Triangle every distinct seed point, boundary and hole vertex and restricted end point once, one segment per boundary or hole edge and restricted segment between the positions of its ends, the centre of every registered hole, and the switches of the request (conforming Delaunay with D, constrained without); all output buffers start empty.',
 ['inputs'], 'every seed list, region with holes and list of restricted segments; Triangle itself is taken as given',
 'Tests triangulate a few regions and do not look at the result; duplicates, holes and restricted segments are rare combinations.',
 [S+'voronoi/TriangleDelaunayGenerator.cpp'], [('callTriangle', S+'voronoi/TriangleDelaunayGenerator.cpp')])

prop('C19', "A triangulation is exactly Triangle's answer",
 "The points, triangles, edges and border marks of a triangulation are those in Triangle's answer, in its order: every edge records the triangles on its two sides, every point an edge (one on the border if there is one), the used points are those of some triangle, and the mesh built from it lists each triangle by its points, registers it at each of its corners, and gives both triangles of every segment.",
 ['inputs'], "every answer of Triangle to any request",
 'Tests check neither connectivity nor neighbours of a triangulation.',
 [S+'voronoi/TriangleDelaunayGenerator.cpp', I+'voronoi/structures/DelaunayInfo.h', I+'models/Mesh.h'], [('callTriangle, getTriangulation', S+'voronoi/TriangleDelaunayGenerator.cpp')])

prop('C20', 'A Voronoi mesh has one cell per site, closed around it',
 'The Voronoi mesh of a triangulation has, for each used point and in their order, the cell whose corners are met by going from triangle to triangle around the point: the circumcentre of each triangle passed (each once), the middle of a border edge where the walk starts or ends on the border, and the point itself, marked as border, when the ends of an open cell are not in line with it. Cells are counterclockwise, their corners index the one list of corner points without repeats, and every corner and side is registered with the cell it belongs to, an open cell also with its closing sides. The generator builds exactly this mesh from the conforming triangulation of its seeds and region, and shows that triangulation.',
 ['inputs'], 'every triangulation data, with sites inside, on the border and at corners of any shape',
 'Tests only run the generator on a few squares and ignore the cells.',
 [S+'voronoi/DelaunayToVoronoi.cpp', S+'voronoi/TriangleVoronoiGenerator.cpp', S+'models/polygon/Triangle.cpp'],
 [('walk around a site', S+'voronoi/DelaunayToVoronoi.cpp'), ('generator', S+'voronoi/TriangleVoronoiGenerator.cpp')])

prop('C21', 'Polygon triangulations cut the polygon as their scheme says',
 "The centre scheme adds the average of the corners to the points and joins it to every side in ring order. The ear scheme cuts, of the corners still left, the first that turns left and whose triangle holds no other corner, until three are left. The Delaunay scheme gives the triangles of the constrained triangulation of the polygon, every corner named by its position in the caller's list of points. A triangle is given back as it is. The triangulation of a polygon leaves the polygon as it was. The points of an arc go from its first to its last angle (in degrees) in equal steps, one more than there are steps.",
 ['inputs'], 'every polygon (any number of vertices, any place of its vertices in the point list), every arc',
 'Tests triangulate one polygon and check nothing about the triangles; index mix-ups only show when the polygon is not the whole point list.',
 [S+'triangulation/EarTriangulationGenerator.cpp', S+'triangulation/CenterTriangulationGenerator.cpp', S+'triangulation/DelaunayTriangulationGenerator.cpp', S+'utilities/delynoi_utilities.cpp'],
 [('ear cutting', S+'triangulation/EarTriangulationGenerator.cpp'), ('centre fan', S+'triangulation/CenterTriangulationGenerator.cpp'), ('index mapping', S+'triangulation/DelaunayTriangulationGenerator.cpp'), ('arc points', S+'utilities/delynoi_utilities.cpp')])

prop('C22', 'Text written holds every element, in order, at the set precision',
 "Points, segments, edges, polygons, neighbour records and keys are written as their coordinates or indices, in their order; points to the precision set in the configuration. A mesh file holds the number of points and each point, the number of edges and each edge, the number of elements and each element with its size, in the mesh's order. The segment and point files hold one line per entry with all its neighbours. A region file holds its points, seeds and sides, each block led by its length, and no holes. The same text is written to a stream and to a file of that name below the home directory.",
 ['inputs'], 'every mesh, region, neighbour map and configuration',
 'Tests write files and never read them.',
 [I+'models/Mesh.h', S+'models/Region.cpp', S+'models/basic/Point.cpp', S+'models/polygon/Polygon.cpp', S+'models/neighbourhood/SegmentMap.cpp', S+'models/neighbourhood/PointMap.cpp'],
 [('mesh writer', I+'models/Mesh.h'), ('region writer', S+'models/Region.cpp'), ('neighbour writers', S+'models/neighbourhood/SegmentMap.cpp')])

prop('C23', 'Text read gives the objects it describes',
 "A mesh read from a file has the points listed there, in order, and the elements listed there, with their corners shifted by the given first index; its neighbour maps are those of these elements. A region or seed list read from a file has the points of the text. A line is cut at its separators or at runs of white space into its non-empty words; a file that cannot be opened is an error.",
 ['inputs'], 'every text of numbers, any first index',
 'The tests read one file; first index, neighbours and order are never checked.',
 [I+'models/Mesh.h', 'lib/utilities/src/utilities.cpp', S+'models/Region.cpp'],
 [('mesh reader', I+'models/Mesh.h'), ('word splitting', 'lib/utilities/src/utilities.cpp')])

prop('C24', 'Every setting keeps its last value and is honoured at use',
 "The discretization grade, tolerance, scale and precision each hold the value they were given last, for every user of the one configuration, and setting one leaves the others as they were. They start as 12, 0.00001, 100000 and 6. The named precisions are 6, 10 and 16 digits. Text output, comparisons and arcs use the precision, tolerance and grade in force when they are called.",
 ['histories'], 'every sequence of settings and every value',
 'Tests never change a setting twice or check what follows from one.',
 [S+'config/DelynoiConfig.cpp', I+'config/DelynoiConfig.h'], [('settings', S+'config/DelynoiConfig.cpp')])

prop('C25', 'Objects hold what they were built from, and copies are their own',
 "A point, segment, angle, polygon, triangle, hole, region, edge record or point record holds exactly the values it was built from or last given, defaults included. A copied or assigned object equals its original in every part, and changing either afterwards leaves the other as it was. A triangle keeps its circumcentre and the index under which it is listed (-1 without a list); an angle is taken modulo half a turn; a region built from a polygon has its vertices in order.",
 ['inputs','histories'], 'every value and every copy followed by a change',
 'Tests build objects and hardly look at them again after copying.',
 [S+'models/basic/Point.cpp', S+'models/polygon/Polygon.cpp', S+'models/polygon/Triangle.cpp', S+'models/Region.cpp', I+'models/hole/Hole.h', I+'models/basic/Angle.h'],
 [('copies of a region', S+'models/Region.cpp'), ('polygon copies', S+'models/polygon/Polygon.cpp'), ('triangle copies', S+'models/polygon/Triangle.cpp')])

prop('C26', 'Vector, angle, list and file helpers compute what they name',
 "Pairs add, scale, multiply (dot product) and normalise as vectors of two components; radians, degrees and sign are the usual ones (degrees within (0, 360]); an element's index is its first position in the list, or -1; random integers are drawn from the inclusive range given; map keys and values are found as stored; text is split into its non-empty words; paths are below the home directory.",
 ['inputs'], 'every argument of every helper',
 'These helpers are used by everything else but have few tests of their own.',
 ['lib/utilities/include/utilities/Pair.h', 'lib/utilities/include/utilities/utilities.h', 'lib/utilities/include/utilities/maputils.h', 'lib/utilities/src/utilities.cpp'],
 [('pair algebra', 'lib/utilities/include/utilities/Pair.h'), ('helpers', 'lib/utilities/src/utilities.cpp')])

prop('C27', 'Every header stands alone and everything it declares exists',
 'A program may include any one public header of the library, or all of them in any order and more than once, and compiles. Every function the headers declare has a definition in the library, and every template (lists, pairs, meshes, helpers) compiles in full, with every member it declares, for the element types the library uses it with.',
 ['inputs'], 'every public header, every declared function, every member of every template',
 'Tests include a few headers in one order and instantiate the members they call; a missing include, definition or template member shows only in the program of a user.',
 ['lib/utilities/include/utilities/UniqueList.h', 'lib/utilities/include/utilities/maputils.h', I+'models/Mesh.h', I+'models/generator/noise/noise.h'],
 [('headers', I+'models/Mesh.h'), ('templates', 'lib/utilities/include/utilities/UniqueList.h')],
 technique='type checking of every header and template by itself; declarations matched with the definitions extracted from every unit',
 level_note='Complete over the headers, declarations and template members of the tree, for the compiler and language level the project builds with (clang, gnu++11) and the element types listed in rules/instances.cpp. A copy constructor or assignment left undefined on purpose counts as undecided.')

prop('C28', 'Nothing unset is read and nothing handed out dangles',
 'Every constructor of the library gives every number, flag and pointer of the object a value, whatever its arguments, so a default built object can be copied, compared and printed. No function reads a local it has not set on some path, returns a reference or pointer to one of its own locals or temporaries, ends without the result it promises, or calls itself for ever; the lists handed to and taken from Triangle are released once and not used afterwards.',
 ['inputs', 'histories'], 'every constructor, every function of every unit and template, every path',
 'An unset member or a dangling reference usually still holds a plausible value when a test looks at it; whether one exists is a question about all paths of the code.',
 [S+'voronoi/TriangleDelaunayGenerator.cpp', 'lib/utilities/include/utilities/Pair.h', S+'models/polygon/Polygon.cpp', S+'models/basic/IndexSegment.cpp', S+'models/generator/PointGenerator.cpp'],
 [('callTriangle', S+'voronoi/TriangleDelaunayGenerator.cpp'), ('constructors', S+'models/polygon/Polygon.cpp')],
 technique='symbolic normal form of every constructor searched for members without a value; flow analysis of the compiler over every unit and template; typestate of the lists exchanged with Triangle',
 level_note='Constructors: complete over every path of every constructor with a normal form (all of them on this tree; any without is reported undecided). Locals and returned references: the precision of the compiler\'s flow analysis, which follows one function at a time and so misses references that escape through a member or a callee. Reads of unset array elements are judged by the other properties, whose normal forms keep them.')

prop('N01', 'A Voronoi mesh partitions its region',
 'The cells of a Voronoi mesh have disjoint interiors and together cover the region (less its holes); every point of a cell is nearest to its own site.',
 ['inputs'], 'every seed list and region', 'Coverage and disjointness quantify over all points of the plane and all seed sets.',
 [S+'voronoi/DelaunayToVoronoi.cpp'], [('walk around a site', S+'voronoi/DelaunayToVoronoi.cpp')],
 na='A metric theorem about the final coordinates: it follows from the empty-circumcircle property of what the vendored Triangle computes at run time and from quality of its meshing; no dataflow or shape argument over the source bounds those quantities. C18-C20 decide everything this library itself adds (what is asked, how the answer is taken over, how each cell is walked and closed).')
prop('N02', 'Delaunay triangles have empty circumcircles and respect constraints',
 'No point of a triangulation lies inside the circumcircle of a triangle that can see it; every boundary, hole and restricted segment is a union of edges.',
 ['inputs'], 'every seed list, region and restricted segments', 'Sampled tests cannot cover near-degenerate point sets.',
 [S+'voronoi/TriangleDelaunayGenerator.cpp'], [('triangulate', I+'voronoi/lib/triangle.c')],
 na="Computed by 16,000 lines of vendored numerical C (Triangle, adaptive-precision predicates); the guarantee depends on run-time values and its proof is of the algorithm, not of a source pattern. The library's own part (input, switches, use of the answer) is C18 and C19.")
prop('N03', 'Boolean operations on regions have exactly the right area',
 'The union, difference and intersection of polygons contain exactly the points that set algebra says, up to the scale of the coordinates.',
 ['inputs'], 'every pair of polygons', 'Needs all relative positions, including shared edges.',
 [S+'models/hole/clipper/lib/clipper.cpp'], [('clipper', S+'models/hole/clipper/lib/clipper.cpp')],
 na='Computed by the vendored Clipper sweep on scaled integers; whether the sweep is right depends on run-time geometry. What the library asks of it and how it takes over the answer is decided by C11.')
prop('N04', 'Predicates stay right under floating-point rounding',
 'Orientation, intersection and containment give the exact answer for every triple of doubles, however close to degenerate.',
 ['inputs'], 'every triple of doubles', 'Near-degenerate inputs have measure zero for sampled tests.',
 [S+'utilities/geometryFunctions.cpp', S+'models/basic/Segment.cpp'], [('predicates', S+'utilities/geometryFunctions.cpp')],
 na='The library computes them in plain doubles against an absolute tolerance, so the property is false as stated for extreme inputs by design, and how far it holds is a question of numeric error bounds over run-time magnitudes. C01-C08 decide the same predicates over the reals.')
prop('N05', 'A mesh written and read back is the same mesh',
 'Reading the file written for a mesh gives a mesh with the same points, edges and elements.',
 ['histories'], 'every mesh', 'No test does a round trip.',
 [I+'models/Mesh.h'], [('reader and writer', I+'models/Mesh.h')],
 na='Not a guarantee of this code base: the writer emits an edge block which the reader (for files of other meshing programs) does not expect. Each half is decided against its own format by C22 and C23.')
prop('N06', 'Every request ends, in bounded memory',
 'Reading, generating and triangulating end for every input.',
 ['inputs'], 'every input', 'Tests stop at the first hang.',
 [S+'triangulation/EarTriangulationGenerator.cpp', S+'voronoi/DelaunayToVoronoi.cpp'], [('walks', S+'voronoi/DelaunayToVoronoi.cpp')],
 na='Ranking arguments for the walks need the topology of Triangle\'s answer (finite, consistent), a run-time quantity; a syntactic rule would either accept everything or alarm on correct loops.')

def main():
    with open(os.path.join(HERE, 'properties.jsonl'), 'w') as f:
        for p in P:
            d = {'id': p['id'], 'title': p['title'], 'statement': p['statement'],
                 'quantifier': {'over': p['over'], 'text': p['qtext']}, 'why_tests_cant': p['why'],
                 'anchors': {'files': p['files'], 'mechanism': [{'name': a, 'where': b} for a, b in p['mech']], 'hook_needed': None}}
            if p['observe']: d['anchors']['observe_at'] = p['observe']
            assert len(p['title']) <= 80, p['id']
            f.write(json.dumps(d) + '\n')
    m = {'version': 1, 'setup_cmd': 'make -s -C extractor', 'checks': [], 'not_applicable': []}
    for p in P:
        if p['na']: m['not_applicable'].append({'property': p['id'], 'reason': p['na']}); continue
        m['checks'].append({'property': p['id'], 'quick_cmd': 'python3 check.py %s' % p['id'], 'thorough_cmd': 'VERIF_TIER=thorough python3 check.py %s' % p['id'],
                            'evidence_file': 'evidence/%s.json' % p['id'], 'technique': p['technique'], 'level': 'other', 'level_note': p['level_note'] or NOTE.strip()})
    json.dump(m, open(os.path.join(HERE, 'MANIFEST.json'), 'w'), indent=1)
    try:
        import jsonschema
        s = json.load(open('/root/.vp/PROPERTIES.schema.json'))
        for l in open(os.path.join(HERE, 'properties.jsonl')): jsonschema.validate(json.loads(l), s)
        jsonschema.validate(m, json.load(open('/root/.vp/MANIFEST.schema.json')))
    except ImportError: print('no jsonschema: not validated')
main()
