def fill(P):
    P('C01', 'Geometric predicates decide the exact sign',
      'For every choice of finite points, the orientation of three points, the position of a point relative to the circle through three points or to the diametral circle of a segment, '
      'the scalar product and the parallelism test equal the sign (within the documented 1e-14 band) of the exact determinant. '
      'A solid triangle answers with its circumscribed circle, a triangle with the ghost as third corner with the half plane left of its solid edge.',
      'all real coordinates of the points involved',
      'The tests evaluate a dozen fixed triples; the sign must be right for every position, including points nearly on a line or circle.',
      ['src/properties/orientation.rs', 'src/properties/continence.rs', 'src/properties/encroachment.rs', 'src/properties/dot.rs', 'src/properties/parallel.rs', 'src/elements/triangle.rs', 'src/elements/edge.rs'],
      [('determinant sign with 1e-14 band', 'orientation, continence, encroach, Triangle::encircles')],
      note='Proved: every function equals the polynomial sign; lemmas tie the in-circle determinant to signed area times power of the point and encroachment to the diametral circle.')
    P('C02', 'Lengths, areas, midpoints, circumcentres, quality and angles are exact',
      'Distance, signed area, midpoint, triangle centre, circumcentre, radius-to-shortest-edge quality, interior angle and the area under a chain of segments equal their mathematical definitions for every input. '
      'Measures of ghost triangles and circumcentres of collinear corners are absent, never wrong.',
      'all real coordinates; all chain lengths',
      'The tests check single triangles; refinement relies on these values for arbitrary triangles, all three orders of edge lengths and any chain length.',
      ['src/properties/distance.rs', 'src/properties/area.rs', 'src/properties/midpoint.rs', 'src/properties/circumcenter.rs', 'src/properties/angle.rs', 'src/elements/triangle.rs', 'src/elements/edge.rs'],
      [('closed formulas', 'distance, area_triangle, area_segments, circumcenter, Triangle::quality, angle')],
      note='Proved as rational identities over square roots and arc cosine as uninterpreted functions; the chain area by loop/fold induction for any length.')
    P('C03', 'Bounding boxes are tight, common region and union exact',
      'The box of any non-empty list of points or boxes contains all of them and each side is attained by one; an empty list has no box. '
      'The common region of two boxes exists exactly if they share a point and then holds exactly their shared points; union is the smallest box around both; containment is the closed box.',
      'all lists of any length and all real coordinates',
      'The tests use lists of two to four points; tightness must hold for any length and order.',
      ['src/elements/bounding_box.rs'],
      [('running minimum and maximum', 'from_vertices, union_list, intersection, union, contains')],
      note='Proved with loop invariants for lists of any length.')
    P('C04', 'Segment intersection returns a common point, and finds it when there is one',
      'A reported intersection of two segments is a point of both supporting lines (within 1e-14 when they are parallel) inside both segments. '
      'Crossing non-parallel segments that share a point always report one.',
      'all pairs of segments with real coordinates',
      'The tests sample a handful of crossing pairs; arrangement and point-in-polygon decisions use arbitrary pairs.',
      ['src/properties/intersection.rs', 'src/elements/bounding_box.rs'],
      [('2x2 linear system inside the common bounding box', 'intersection')],
      note='Proved: soundness for all inputs, completeness for non-parallel segments; completeness for collinear overlap is searched only (bounded).')
    P('C05', 'Equality, order and hash of vertices, edges and triangles agree',
      'Vertices are equal iff both ghosts or both coordinates agree within 1e-14; the order puts ghosts last and is a total order on distinct points, by x then y; a list sorted with it is sorted and keeps its vertices. '
      'Edges are equal iff begin and end are; triangles iff they are rotations of one another (never mirrored). Equal vertices, edges and triangles with the same coordinates hash alike, so sets and maps keyed by them hold no duplicates.',
      'all vertices, edges and triangles, ghosts included',
      'The tests compare a few fixed samples; every set and map of the triangulation depends on eq, hash and order agreeing for all of them.',
      ['src/elements/vertex.rs', 'src/elements/edge.rs', 'src/elements/triangle.rs'],
      [('tolerance equality, three-rotation comparison, sum hash', 'Vertex, Edge, Triangle: PartialEq, Ord, Hash; Vertex::sort')],
      note='Proved, with lemmas over the contracts for symmetry, transitivity of the order and hash agreement; two tolerance-induced violations are listed as known findings.')
    P('C06', 'Edges and triangles are built and taken apart without loss',
      'Edges keep their two end points in order, opposite swaps them; lists of coordinates, vertices and pairs give one vertex or edge per entry, in order. '
      'The three inner edges of a triangle run around it, the outer edges are their opposites; opposite edge and opposite vertex belong to the named corner or side and are absent for others. '
      'The edge map groups edges by begin point. A point is on an edge exactly if in line and in its box.',
      'all edges, triangles and lists of any length',
      'The tests use two or three fixed lists; the triangulation composes these operations on arbitrary input.',
      ['src/elements/edge.rs', 'src/elements/triangle.rs', 'src/elements/vertex.rs'],
      [('constructors and accessors', 'Edge::new, opposite, from_*, into_hashmap, contains; Triangle::inner_edges, outer_edges, opposite_edge, opposite_vertex')],
      note='Proved for lists of any length.')
    P('C07', 'Polylines keep their sides; arranging and hulls give the exact boundary',
      'Polylines keep their vertices and openness and refuse too few; their sides are the consecutive pairs, closing exactly if closed; equality is up to the starting point. '
      'Arranging a set of edges succeeds only if they form one closed line, and that line has exactly the given edges. The hull of triangles consists of exactly the sides not shared by two of them. '
      'Minifying keeps openness and drops only vertices in line with their neighbours.',
      'all lists of vertices, edges and triangles of any length',
      'The tests arrange a few squares; cavities during insertion of segments and holes are arbitrary.',
      ['src/elements/polyline.rs', 'src/elements/triangle.rs', 'src/elements/edge.rs'],
      [('vertex pairs, edge chaining, hull of cancelling sides', 'Polyline::new_*, into_edges, arrange, triangles_hull, minified_noncolinear, eq')],
      note='Proved with loop invariants for any length; termination is not proved.')
    P('C08', 'A point is classified correctly with respect to a polygon',
      'An opened polyline classifies no point. For a closed one the answer is Boundary exactly if the point lies on a side, else Inside exactly if the signed crossings of its sides with the vertical through the point do not cancel, else Outside. '
      'For a simple polygon that is the usual inside and outside. The orientation of a ring is the sign of its area.',
      'all points and all closed polylines of any length',
      'The tests classify some dozen points; corners exactly above the point, vertical sides and reflex corners need every position.',
      ['src/elements/polyline.rs'],
      [('signed crossing sum', 'Polyline::contains, segments_orientation')],
      note='Proved for any number of sides; that crossing sums decide inside is tied to triangles by lemmas, its Jordan-curve reading for simple polygons is checked by the bounded search only.')
    P('C09', 'A line is inside or outside a polygon only if all of it agrees',
      'When a position of one line with respect to a closed polygon is reported, every corner and side midpoint of the line is on that side or on the boundary; '
      'the inclusion is reported closed exactly if some of these points lies on the boundary. A line with points strictly on both sides gets no position.',
      'all closed polygons and all lines of any length',
      'The tests place a few squares; domain evaluation and insertion decisions use arbitrary shapes.',
      ['src/elements/polyline.rs'],
      [('agreement of corner and midpoint classification', 'Polyline::continence')],
      note='Proved for any number of sides on corners and midpoints (what the code inspects); crossings between them are covered by the bounded search only.')
    P('C10', 'The triangle store and its side index stay consistent',
      'Including a triangle stores it once (up to rotation) and makes each of its three sides lead to it; removing takes it and the index entries of its sides away; both say whether they changed anything and touch nothing else. '
      'If every side of a stored triangle leads to it and every listed side leads to a stored triangle having it, that stays so when a triangle none of whose sides is taken is included and when any is removed. '
      'The vertex list has exactly the solid corners, the edge list exactly the sides of the stored triangles; the initial segment gives its two ghost triangles.',
      'all triangulations and all triangles, rotated and ghost ones included',
      'The tests look at final triangulations; the index is used by every later step and must hold after every history of changes.',
      ['src/planar/triangulation.rs', 'src/elements/triangle.rs', 'src/elements/vertex.rs'],
      [('triangle set with directed side index', 'Triangulation::include_triangle, remove_triangle, vertices, edges, from_initial_segment')],
      over=('inputs', 'histories'),
      note='Proved for every triangulation; the preservation of consistency as lemmas over the contracts.')
    P('C11', 'Inserting vertices keeps accounts, constrained sides and every vertex',
      'Inserting a list of vertices reports which triangles it included and removed, and the stored triangles are exactly those of before plus the included minus the removed. '
      'An included triangle has a given vertex that was no corner yet; a triangle is removed only for such a vertex that lies in its circle (or on its side, for a ghost triangle) and may be joined to it. '
      'No constrained side loses its triangle. A given vertex is left out only if in the end it conflicts with no triangle of the triangulation.',
      'all triangulations with a consistent index, all lists of vertices, constraint sets, boundaries and holes; every order of the hash sets',
      'The tests insert a few vertices one after another; cavities that grow, meet constrained sides or compete for vertices within one batch depend on hash order.',
      ['src/planar/triangulation_procedures/vertices.rs', 'src/planar/triangulation.rs'],
      [('Bowyer-Watson cavities driven by a conflict map', 'vertices::include, vertices::solve_conflicts')],
      over=('inputs', 'histories'),
      note='Proved with loop invariants for cavities and conflict maps of any size. That cavities are star-shaped (positive triangles, empty circles) is checked by the bounded search only.')
    P('C12', 'Pending vertices are filed only where they conflict, outside every hole',
      'A vertex may be joined to a triangle exactly if the joining line (for a ghost triangle: the triangle with its outer side) is not outside the boundary and not inside any of the holes, whatever their order. '
      'Distribution files a vertex under a triangle only if it lies strictly in its circle and may be joined to it, keeps exactly those that do not conflict, loses and duplicates none, '
      'leaves entries of other triangles alone and leaves no empty entry; distribution over the triangulation does not change the triangulation.',
      'all triangles, lists of pending vertices, boundaries and sets of holes',
      'The tests use no hole or one; whether a vertex is let into a hole depended on the iteration order of the hole set.',
      ['src/planar/triangulation_procedures/vertices.rs'],
      [('conflict lists per triangle', 'vertices::may_insert_triangle, distribute_conflicts, distribute_conflicts_over_triangulation')],
      note='Proved for lists and hole sets of any size; polygon, circle and centre computations enter as deterministic functions of their arguments (C03, C04, C08, C09 say what they compute).')
    P('C16', 'Given vertices are refused or taken as a whole; segments split',
      'Vertices handed to the triangulator are refused together, naming exactly those that are not strictly inside the boundary and strictly outside every hole; then nothing changes. '
      'Otherwise each given vertex ends up as a vertex or as an end of a segment, no vertex is lost or invented, a segment disappears only when a given vertex splits it, new segments end in given vertices, '
      'and an added vertex lies on no segment that stayed. Boundary, holes and triangulation are left alone.',
      'all boundaries, hole sets, segment sets, vertex sets and given vertices; every order of the hash sets',
      'The tests give three or four vertices; several vertices on one segment are split in hash order.',
      ['src/planar/triangulator.rs'],
      [('checking and splitting loops over hash sets', 'Triangulator::insert_vertices')],
      over=('inputs', 'schedules'),
      note='Proved with loop invariants for sets of any size; where a point lies enters through Polyline::contains and Edge::contains (C08, C06). That the parts of a split segment cover it is checked by the bounded search.')
    P('C18', 'A hole is refused if it touches anything, else it clears its vertices',
      'A hole handed to the triangulator is refused exactly if its position says it is not strictly inside the boundary or strictly outside another hole, or a segment is not strictly outside it; '
      'the answer names the vertices of what it touches and nothing changes. Otherwise it is added, the vertices not strictly outside it are dropped and all others stay. Boundary, segments and triangulation are left alone.',
      'all boundaries, hole sets, segment sets, vertex sets and holes; every order of the hash sets',
      'The tests insert one square hole; which vertices survive was wrong for every vertex inside the hole.',
      ['src/planar/triangulator.rs'],
      [('continence of boundary, holes and segments', 'Triangulator::insert_hole')],
      note='Proved with loop invariants for sets of any size; positions enter through Polyline::continence and contains (C08, C09).')
    P('C19', 'The output lists exactly the stored triangles by valid indices',
      'The output of a triangulation lists, for every stored solid triangle, an entry whose three indices are positions of its corners, and no other entry; ghost triangles are left out. '
      'Every coordinate is a corner of a stored triangle, there are no tetrahedra and name, id and date are those of the input.',
      'all triangulations; every order of the hash set of vertices',
      'Nothing tests the output; indices referred to another order of the vertices and were right only by luck of the hash order.',
      ['src/json_serializar/models/output.rs', 'src/json_serializar/models/point.rs', 'src/json_serializar/models/tesselations.rs'],
      [('index map over one listing of the vertices', 'TriangulationOutput::from_triangulator, Point::from_vertex, Triangle::new')],
      note='Proved for triangulations of any size, including that no index lookup fails; id and date and the JSON text are covered by the bounded search only.')
    P('C20', 'Input geometry is read as written, or refused without a panic',
      'Points of a vertices action become exactly its vertices. Segments are read from the index rows if there are any, else from consecutive pairs; rows too short or out of range and an odd number of points are refused. '
      'A polyline keeps its points in order and is closed; fewer than three points are refused. A circle gives its resolution many corners on the circle, fewer than three are refused. '
      'Actions of unknown geometry or intent are refused; regions, removals and constraints keep their roles and order. Refinement parameters are passed on unchanged.',
      'all actions with lists of any length and any indices',
      'The tests deserialize a few well formed actions; malformed input ended in a panic.',
      ['src/triangulator_interface/interpreter/mod.rs', 'src/triangulator_interface/interpreter/segments_parser.rs', 'src/triangulator_interface/interpreter/vertices_parser.rs',
       'src/triangulator_interface/interpreter/polyline_parser.rs', 'src/triangulator_interface/interpreter/circle_parser.rs', 'src/triangulator_interface/interpreter/refine_params_parser.rs'],
      [('parsers of actions', 'vertices_parser, segments_parser, polyline_parser, refine_params_parser, circle_parser, interpreter::parse')],
      note='Proved for vertices, segments, polylines and parameters (lists of any length, any indices, no panic). Circles and the combination of actions are bounded (seeded search).')
