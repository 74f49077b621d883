import json
P=[]
def p(id,title,statement,over,text,why,files,mech,state=None,observe=None,hook=None):
    a={"files":files,"mechanism":[{"name":n,"where":w} for n,w in mech]}
    if state: a["state"]=[{"name":n,"meaning":m,"where":w} for n,m,w in state]
    if observe: a["observe_at"]=observe
    a["hook_needed"]=hook
    P.append({"id":id,"title":title,"statement":statement,"quantifier":{"over":over,"text":text},"why_tests_cant":why,"anchors":a})
M="src/math/"
p("C01","Geometric-algebra products follow the Clifford algebra of 3-space",
 "For all component values, every product the math module offers (dot, wedge and geometric product between vectors, bivectors, trivectors and rotors) has exactly the components that the associative Clifford algebra of Euclidean 3-space prescribes for those operands, up to floating-point rounding: e1, e2, e3 square to +1 and anticommute. For a pair of bivectors the wedge is the grade-2 part of their geometric product, so that the geometric product always equals dot plus wedge.",
 ["inputs"],"every pair of operands, every component",
 "The unit tests multiply a handful of fixed vectors; a sign error in a component those vectors leave at zero, or in rotor*rotor, passes them.",
 [M+"vector.rs",M+"bivector.rs",M+"trivector.rs",M+"rotor.rs"],
 [("component formulas of dot/wedge/mul","impl Contraction / Exterior / Mul for Vector3, Bivector3, Trivector3, Rotor3")])
p("C02","Norms, normalisation and inverses cohere with the product",
 "For every vector, bivector, trivector and rotor the squared norm is the sum of the squares of all its components, the norm is its square root, and normalising divides every component by the norm. For every non-zero vector, bivector and trivector the inverse times the value is the scalar 1, and for every rotor the inverse is the reverse, so that rotor times inverse is the scalar squared norm.",
 ["inputs"],"every value of each blade type and rotor",
 "Tests normalise or invert one or two values of each type, and never check the inverse of a non-unit rotor or a component that is zero in the fixture.",
 [M+"vector.rs",M+"bivector.rs",M+"trivector.rs",M+"rotor.rs",M+"space.rs"],
 [("norm/norm_squared/normalize/inverse","impl Norm for each type")])
p("C03","Rotors rotate: sandwich product, composition and construction",
 "Rotating a vector by a rotor R yields the vector part of R u R-reverse, the identity rotor leaves every vector unchanged, and rotating by R1*R2 equals rotating by R2 and then by R1. The rotor built from two non-zero, non-opposite vectors u and v has unit norm and turns the direction of u into the direction of v, whatever their lengths. The rotor built from an angle and a unit plane turns the plane's first basis direction towards its second by that angle, and the xy, xz and yz constructors use the plane they are named after.",
 ["inputs"],"every rotor, vector, angle and pair of vectors",
 "The tests rotate three vectors by two rotors built from unit vectors; other planes, non-unit arguments and composition are never exercised.",
 [M+"rotor.rs"],
 [("rotate","Rotor3::rotate"),("from_vectors / from_angle_plane / from_*_rotation / identity","impl Rotor3"),("composition","impl Mul for Rotor3")])
p("C04","Component-wise operators act on every component and agree with each other",
 "Addition, subtraction, negation, and multiplication and division by a scalar of vectors, bivectors, trivectors and rotors act on each component independently and on all of them. Every compound-assignment operator leaves in its left operand exactly the value the corresponding binary operator returns, and division never differs from multiplication by the reciprocal except by rounding. The zero, unit and identity constructors produce exactly the value they are named after, and a value is reported as zero exactly when all of its components are zero.",
 ["inputs"],"every operand and every operator of the four algebra types",
 "Only vector add and sub are tested, on one pair of values; no compound assignment is.",
 [M+"vector.rs",M+"bivector.rs",M+"trivector.rs",M+"rotor.rs"],
 [("operator impls","impl Add/AddAssign/Sub/SubAssign/Neg/Mul<T>/MulAssign/Div<T>/DivAssign/Zero")])
p("C05","Approximate equality compares every component with the caller's tolerance",
 "Two vectors, bivectors, trivectors or rotors are approximately equal (absolute, relative or ULPs comparison) exactly when every corresponding pair of components is, under the tolerances the caller passed. The default tolerances are those of the component type. Exact equality holds exactly when all components are equal, and a clone equals its original.",
 ["inputs"],"every pair of values and every tolerance",
 "The tests use these comparisons as their oracle: a comparison that skips a component, or passes the wrong tolerance, makes more tests pass, not fewer.",
 [M+"vector.rs",M+"bivector.rs",M+"trivector.rs",M+"rotor.rs"],
 [("approx impls","impl approx::AbsDiffEq/RelativeEq/UlpsEq for each type")])
p("C06","Angle, projection and reflection of vectors are the geometric ones",
 "For all non-zero vectors u and v, the projection of u onto v is v*(u.v)/(v.v), the reflection of u about v is 2*v*(u.v)/(v.v) - u, and the cosine of the angle between them is u.v/(|u||v|). The angle between two non-zero finite vectors is always a number: rounding never turns it into NaN, not even for parallel vectors.",
 ["inputs"],"every pair of non-zero finite vectors",
 "One pair of vectors per operation is tested, none of them parallel for the angle.",
 [M+"vector.rs"],[("angle/project/reflect","impl Vector3")])
p("C07","Basis-blade counts are the binomial coefficients",
 "The number of basis k-blades reported for an n-dimensional space is the binomial coefficient n-choose-k for every n and k whose intermediate products fit the machine word, including 1 for k = 0 and 0 for k > n, and asking for it never panics for those values. The total number of basis blades of an n-dimensional space is 2 to the power n.",
 ["inputs"],"every dimension n and grade k in range",
 "No test calls these functions.",
 [M+"blade.rs"],[("factorial / binomial_coefficient","src/math/blade.rs"),("number_of_basis_blades / total_number_of_basis_blades","src/math/blade.rs")])
G="src/geometry/"
p("C08","Orientation and intersection predicates are exact functions of signed area",
 "The signed area of a triangle (twice the area) is the determinant of its edge vectors, and left / left-or-on / collinear are its sign tests, whatever the points. A point is between two others exactly when it is collinear with them and inside their closed bounding interval. Two segments intersect properly exactly when no endpoint of either is collinear with the other and each separates the endpoints of the other; they intersect exactly when they do so properly or an endpoint of one is between the endpoints of the other, and the verdict does not depend on the order of the two segments or of their endpoints.",
 ["inputs"],"every configuration of four points, including collinear and coincident ones",
 "A test samples six points; the predicates branch on degenerate configurations (vertical, touching, collinear-disjoint) that are not sampled.",
 [G+"polygon.rs"],[("area2, left, left_on, collinear, between, intersect_prop, intersect","src/geometry/polygon.rs")])
p("C09","Segment intersection returns a point of both segments, or nothing",
 "For two segments that are not parallel, the segment-intersection routine returns the unique common point of their carrier lines when that point lies on both closed segments, endpoints included, and nothing otherwise. For parallel or degenerate segments it returns nothing, never a non-finite point.",
 ["inputs"],"every pair of segments",
 "No test calls it; it is the only thing that makes the planar graph split crossing edges.",
 [G+"utils.rs"],[("calculate_line_segment_intersection","src/geometry/utils.rs")])
p("C10","Line constructions satisfy their defining incidence relations",
 "For all points: the infinite-line intersection lies on both lines and is returned whenever the lines are not (nearly) parallel, wherever on them it falls, and is absent otherwise; the perpendicular point q of p with respect to ab lies on line ab with pq perpendicular to ab; the midpoint is the average of its endpoints. The perpendicular bisector of a segment is the midpoint together with a point at the requested distance from it in a direction perpendicular to the segment, for segments of every slope. Two segments are reported parallel exactly when the absolute cosine between their directions is within the library epsilon of 1.",
 ["inputs"],"every choice of points, including horizontal and vertical segments",
 "Only the parallel test on one horizontal pair is exercised.",
 [G+"utils.rs"],[("calculate_line_intersection, calculate_perpendicular_point, calculate_midpoint, calculate_perpendicular_bisector, parallel","src/geometry/utils.rs")])
p("C11","Triangle incenter and inradius are correct; degenerate triangles are refused",
 "A triangle is degenerate exactly when some side is at least as long as the other two together. For every other triangle the incenter is the average of the vertices weighted by the lengths of the opposite sides and the inradius is the area divided by the semiperimeter; for every degenerate one no incenter is returned.",
 ["inputs"],"every triple of points",
 "One triangle and one degenerate triple are tested, and the inradius is never checked.",
 [G+"utils.rs"],[("is_degenerate_triangle, calculate_triangle_incenter","src/geometry/utils.rs")])
p("C12","Point-proximity queries: nearest, coincident, unique, on-segment",
 "Two points are close exactly when their distance is at most the library epsilon, and the nearest-point query returns the first index attaining the minimum distance to the target, and that distance, for every non-empty point list. Reducing a list to its unique points keeps, in order, exactly one point of each group of coincident points: every input point is close to some output point, and no two output points are close to each other. A point is on a segment exactly when the detour through it is shorter than epsilon and, only when endpoints are excluded, it is farther than epsilon from both endpoints.",
 ["inputs"],"every point list, target and segment",
 "None of these helpers is called by a test with more than two points, or with coincident ones.",
 [G+"utils.rs"],[("close_to, find_closest_to, unique_points_among, is_on_line_segment","src/geometry/utils.rs")])
p("C13","Polygons have at least 3 vertices, run counter-clockwise, and report area",
 "Constructing a polygon from fewer than three vertices is refused with an error; otherwise the polygon holds exactly the given vertices, in the given order if their signed area is not negative and in reverse order if it is, so its signed area is never negative. The area is half the absolute value of the signed (shoelace) area of the vertex list and the center is the average of all vertices. A regular polygon has the requested number of vertices, the i-th at angle 2*pi*i/n on the circle of the given radius around the given center.",
 ["inputs"],"every vertex list, every radius, center and side count of at least 3",
 "Tests build two counter-clockwise polygons; no clockwise, degenerate, regular or too-short input.",
 [G+"polygon.rs"],[("Polygon::new, regular, area, area_poly2, center, get_vertices","src/geometry/polygon.rs")],
 state=[("vertices","the polygon's boundary in counter-clockwise order","struct Polygon")])
p("C14","Scaling and translating a polygon move every vertex, and nothing else does",
 "Uniformly scaling a polygon multiplies every vertex by the factor and translating adds the vector to every vertex, preserving their number and order, so the counter-clockwise orientation survives. No other public operation on a polygon changes it.",
 ["inputs","histories"],"every polygon, factor and vector, and every sequence of operations",
 "No test transforms a polygon.",
 [G+"polygon.rs"],[("Polygon::uniform_scale, translate; &self receivers elsewhere; private field","src/geometry/polygon.rs")])
p("C15","A polygon diagonal is clear of every non-adjacent edge and interior at both ends",
 "Two vertices of a polygon form a diagonal exactly when they are distinct, the segment between them meets no polygon edge that does not share one of its endpoints (the closing edge included), and each of the two vertices sees the other inside its interior cone. The cone test distinguishes convex from reflex vertices by the turn at the vertex: inside means strictly between the neighbours at a convex vertex, and not within the closed exterior cone at a reflex one.",
 ["inputs"],"every polygon and every pair of vertex indices in range",
 "One polygon's ears are computed and printed; nothing is asserted.",
 [G+"polygon.rs"],[("Polygon::diagonal, in_cone, get_neighbor_indices","src/geometry/polygon.rs")])
p("C16","Triangulation clips one valid ear at a time and always terminates",
 "Triangulating a polygon returns for every input: each step cuts off the triangle formed by a vertex whose two neighbours are joined by a diagonal of the remaining polygon and removes exactly that vertex, and it stops when three vertices remain, which form the last triangle, so a polygon with n vertices that always has an ear yields n-2 triangles. The ear status used at every step is that of the polygon that remains at that step. A polygon in which no ear can be found does not make the call hang.",
 ["inputs"],"every polygon, including degenerate and self-intersecting vertex lists",
 "One polygon is triangulated and only the number of triangles is printed; a degenerate vertex list would hang the suite.",
 [G+"polygon.rs"],[("Polygon::triangulate","src/geometry/polygon.rs")])
p("C17","A point is on a line exactly when its offset is parallel to the direction",
 "For every line in space and every point, the line contains the point exactly when the bivector spanned by the offset from the line's base point and the line's direction is zero in all three components within the documented tolerance (one single-precision epsilon absolute, or 4 ULPs).",
 ["inputs"],"every line and point in 3-space",
 "Three points of one line in the xy-plane are tested, so two of the three bivector components are never non-zero.",
 [G+"line.rs"],[("Line::new, Line::contains","src/geometry/line.rs")])
H="src/graph/planar_graph.rs"
g=[("nodes","node list; indices are identities","PlanarGraph"),("edges","edge list, endpoints are node indices","PlanarGraph")]
p("C20","Graph queries report exactly what the graph contains",
 "Node and edge counts, lookups and index-existence queries agree with each other for every index: an index exists exactly when it is smaller than the count, which is exactly when the lookup returns an element, and that element is the one stored there. Whether an edge joins two nodes does not depend on the order of the two, and is true exactly when some stored edge has those endpoints. The number of edges incident to a node counts exactly the stored edges that have it as an endpoint, and is absent exactly when the node does not exist.",
 ["inputs","histories"],"every graph and every index or pair of indices",
 "No query is asserted by any test.",
 [H],[("node_count, edge_count, get_vertex, get_edge, has_node_at_index, has_edge_at_index, has_edge_between_nodes, number_of_edges_incident_to, includes, getters","src/graph/planar_graph.rs")],g)
p("C21","Adding a node reuses a coincident node or appends exactly one",
 "Adding a node at a position closer than the library epsilon to an existing node changes nothing and returns the nearest existing node's index and no edges. Otherwise exactly one node with that position and data is appended, every existing node keeps its index and content, the returned index is that of the new node, and the returned edges are exactly those that were divided by it or created by dividing.",
 ["inputs","histories"],"every graph, position and node data",
 "The only graph test adds four distant nodes to an edgeless graph and asserts nothing.",
 [H],[("PlanarGraph::add_node, split_edges_at_node","src/graph/planar_graph.rs")],g)
p("C22","Adding an edge validates endpoints, never duplicates, divides what it meets",
 "Adding an edge whose endpoints do not both exist is refused with the no-such-vertex error and leaves the graph unchanged, and adding an edge between two nodes that are already joined, in either order, changes nothing and succeeds. Otherwise one edge with exactly these endpoints and data is appended and every point where it meets any other edge, or an existing node in its interior, becomes a node at which the edges through it are divided (a node created for this carries the default data); no pair of nodes ends up joined twice. The returned nodes are those created, and the returned edges include every edge created or divided, and the new edge itself when nothing was divided.",
 ["inputs","histories"],"every graph and every pair of endpoints",
 "One test adds two crossing edges and prints the result.",
 [H],[("PlanarGraph::add_edge, split_edges_along_edge","src/graph/planar_graph.rs")],g)
p("C23","Dividing an edge at a node preserves its endpoints and data",
 "Whenever a node is found in the interior of an edge, that edge is replaced in its own slot by the part from its first endpoint to the node, and one further edge from the node to its second endpoint is appended; both carry the data of the divided edge. Every edge that does not pass through the node is untouched, and every edge is tested.",
 ["inputs","histories"],"every graph and every node that lies on any number of its edges",
 "No test asserts what a split produced, and no test uses edge data other than ().",
 [H],[("PlanarGraph::split_edges_at_node","src/graph/planar_graph.rs")],g)
p("C24","Removing a node removes it, its edges and its strays, and renumbers the rest",
 "Removing an existing node deletes exactly that node, the edges incident to it, and those neighbours that have no other edge; all other nodes and edges survive in their original relative order with their position, data and label, and both endpoints of every surviving edge are renumbered to denote the same nodes as before. Removing a non-existent node changes nothing. The returned indices cover every slot that afterwards holds a different node or edge, or none; an edge that was merely renumbered counts as the same edge.",
 ["inputs","histories"],"every graph and every node index",
 "No test removes a node.",
 [H],[("PlanarGraph::remove_node, remove_edges_incident_to_node","src/graph/planar_graph.rs")],g)
p("C25","Removing an edge removes that edge and only nodes it leaves stray",
 "Removing an existing edge both of whose endpoints have other edges deletes exactly that edge, moves at most the last edge into the vacated slot, and leaves all nodes unchanged. When an endpoint of the edge has no other edge, that endpoint is removed (and with it the edge and any other node that becomes stray). Removing a non-existent edge changes nothing. The returned indices cover every slot that afterwards holds a different node or edge, or none.",
 ["inputs","histories"],"every graph and every edge index, the last one included",
 "No test removes an edge.",
 [H],[("PlanarGraph::remove_edge","src/graph/planar_graph.rs")],g)
p("C26","Every edge always joins existing nodes, whatever the history",
 "After any sequence of public operations starting from an empty graph, both endpoints of every stored edge are indices of existing nodes. No public operation hands out a way to change the node or edge lists, or an edge's endpoints, other than the add and remove operations.",
 ["histories"],"every sequence of add/remove operations with arbitrary arguments",
 "Tests run one history of six additions; the invariant quantifies over all histories and is broken by removals in particular.",
 [H],[("endpoint check in add_edge; renumbering in remove_node; fresh index in split","src/graph/planar_graph.rs"),("private fields, shared-reference getters","struct PlanarGraph/Node/Edge")],g)
p("C27","Graph operations never panic",
 "No public operation of the planar graph panics, for any graph reachable through the public operations and any argument: out-of-range indices, isolated nodes, the last edge, an edge from a node to itself, an empty graph.",
 ["inputs","histories"],"every reachable graph and every argument",
 "Panics need a removal (of an isolated node, of the last edge, at a self-loop) and no test removes anything.",
 [H],[("guards before unwrap/expect/indexing/subtraction","src/graph/planar_graph.rs")],g)
p("C28","Algebra and geometry calls never panic",
 "No public function of the algebra and geometry modules panics for arguments in its domain, whatever the numbers: zero vectors, coincident, collinear, far apart or self-crossing points, empty lists, negative or NaN values. Outside of the domain are only: fewer than three sides for a regular polygon, a vertex index past the end for a diagonal, an empty list for the nearest-point query, and blade counts that overflow the machine word (C07).",
 ["inputs"],"every argument in the domain of every public function of the two modules",
 "The tests call each routine with one or two well-behaved operands; a panic needs a degenerate one.",
 [M+"vector.rs",M+"bivector.rs",M+"trivector.rs",M+"rotor.rs",G+"polygon.rs",G+"utils.rs",G+"line.rs"],[("all public functions and trait implementations","src/math, src/geometry"),("indexing, unwrap, unsigned subtraction in Polygon","src/geometry/polygon.rs")])
D="src/fold/fold.rs"
p("C30","FOLD documents survive writing and reading back",
 "Every data field of a FOLD document that is written under some key is read back from that same key into that same field, so that serialising a document and parsing the result loses and swaps nothing. Keys follow the FOLD naming the reader accepts, and no two fields share a key. This concerns documents of one frame (further frames are not supported yet) whose numbers are finite.",
 ["inputs"],"every document value with finite numbers",
 "There is no test of the FOLD module.",
 [D],[("serde attributes on struct Fold","src/fold/fold.rs")])
p("C31","Every FOLD field is optional on input and has the specified type",
 "A FOLD document that omits any subset of the supported fields parses, the omitted fields taking their empty default, and unknown fields are ignored. The specification version is a JSON number, not necessarily an integer, so documents of version 1.1 parse.",
 ["inputs"],"every subset of fields",
 "There is no test of the FOLD module.",
 [D],[("serde(default), field types","src/fold/fold.rs")])
p("C32","Loading a FOLD file reports every failure as an error",
 "Loading a FOLD file never panics because of the file: a file that cannot be opened or read, is not UTF-8, or is not a valid FOLD document yields an error value, and a document is returned only if the whole file was read and parsed.",
 ["inputs","fault_sequences"],"every path, file content and I/O failure",
 "There is no test of the FOLD module.",
 [D],[("Fold::from_file","src/fold/fold.rs")])
p("C40","Every library call terminates",
 "Every public function of the library ends on every input, by returning or by an explicit panic: each loop either runs over a finite collection or range fixed when it starts, or makes progress towards its exit condition on every iteration, and there is no unbounded recursion.",
 ["inputs"],"every public function and argument",
 "A test can only hang or not on the inputs it samples; ear clipping without progress is one such loop.",
 ["src"],[("all loops of the crate","src/**")])
p("C41","Results depend only on arguments",
 "Every public operation is deterministic and context-free: its result and the state it leaves depend only on its receiver and arguments, never on time, randomness, environment, threads, addresses, hidden global state or hash-map iteration order. Apart from diagnostics on standard output, only loading a FOLD file touches the outside world, and it only reads the given path.",
 ["inputs","histories","configurations"],"every public function, every run",
 "Within one process and one build a test sees one hash seed, one environment and one schedule.",
 ["src"],[("no global state; HashMap used only for keyed lookup","src/graph/planar_graph.rs remove_node"),("file access only in Fold::from_file","src/fold/fold.rs")])
# not applicable
p("C50","Drawings stay planar under floating-point coordinates",
 "After any sequence of operations, no two edges of the planar graph meet except at common endpoints, for every choice of single-precision coordinates.",
 ["inputs","histories"],"every history and all f32 coordinates",
 "Rounding of intersection points and an absolute epsilon decide it; tests sample one crossing at (150,100).",
 [H,G+"utils.rs"],[("split_edges_along_edge with absolute epsilon","src/graph/planar_graph.rs")])
p("C51","Triangles tile the polygon",
 "For every simple polygon the returned triangles are pairwise interior-disjoint and their union is the polygon.",
 ["inputs"],"every simple polygon",
 "One polygon is triangulated, without assertion.",
 [G+"polygon.rs"],[("Polygon::triangulate","src/geometry/polygon.rs")])
p("C52","Rounding error of algebra and geometry routines is bounded",
 "Each algebra and geometry routine returns a result within a few ULPs of the exact real-number result, for all inputs that do not overflow.",
 ["inputs"],"all floating-point inputs",
 "Tests compare a few values at 4 to 8 ULPs.",
 [M+"vector.rs",G+"utils.rs"],[("operation order in each formula","src/math, src/geometry")])
p("C53","Flat-foldability theorems are decided correctly",
 "The Kawasaki-Justin, Maekawa-Justin and big-little-big-angle checks accept exactly the vertices that satisfy the respective theorem, and vertex and crease attributes are computed from the crease pattern.",
 ["inputs"],"every vertex and crease assignment",
 "No test, and no implementation yet.",
 ["src/origami/foldability.rs","src/origami/vertex.rs","src/origami/crease.rs"],[("empty stubs","src/origami")])
p("C54","Intersecting lines in space report their common point",
 "For every two lines in space that meet in exactly one point, the line intersection query returns that point, and it returns nothing otherwise.",
 ["inputs"],"every pair of lines",
 "No test, and the query is an unfinished stub.",
 [G+"line.rs"],[("Line::intersect","src/geometry/line.rs")])
open('/verif/properties.jsonl','w').write(''.join(json.dumps(x)+'\n' for x in P))
print(len(P))
