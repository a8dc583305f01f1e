#!/usr/bin/env python3
"""Writes properties.jsonl (kept as a generator so that anchors stay easy to edit)."""
import json, os
L2="src/linestring_2d.rs"; L3="src/linestring_3d.rs"; CH="src/linestring_2d/convex_hull.rs"
IS="src/linestring_2d/intersection.rs"; IX="src/linestring_2d/indexed_intersection.rs"
S2="src/linestring_2d/simplify.rs"; S3="src/linestring_3d/simplify.rs"; SH="src/shape.rs"
P=[]
def p(id,title,statement,text,why,files,mech,over=("inputs",),observe=None):
    P.append(dict(id=id,title=title,statement=statement,quantifier=dict(over=list(over),text=text),why_tests_cant=why,
      anchors=dict(files=files,mechanism=[dict(name=a,where=b) for a,b in mech],observe_at=observe or ["return values of the public functions"],hook_needed=None)))
p("L01","Segment/segment and segment/point intersection is exact",
 "For any two closed segments (either may be a single point), the reported result is none exactly when they share no point, a single point exactly when they share one point (and it is that point), and an overlap exactly when they share more than one point (and it is exactly the shared part, in either direction). A point is reported on a segment exactly when it lies on it.",
 "every pair of segments, including degenerate, touching, collinear, parallel, vertical and horizontal ones",
 "The tests evaluate a few dozen hand-picked segment pairs; the case analysis (parallel, collinear, containment, end-point touching, degenerate) has to be right for every pair.",
 [L2],[("Line2::intersection_point",L2),("Line2::precedes",L2),("intersect_line_point",L2)])
p("L02","Line queries on a polyline agree with its edges, edge by edge",
 "Asking a polyline for its intersections with a line returns, in edge order, exactly the per-edge results; asking for the first intersection returns the result of the first edge that has one; asking for two intersections returns distinct points of the intersection set, as many (up to two) as there are.",
 "every polyline of every length (including empty, one-point and self-crossing ones) and every query line",
 "Tests use a handful of polylines; the loop over the edges must be right for every length and every combination of edge results.",
 [L2],[("LineString2::intersection, find_two_intersections, find_all_intersections",L2)])
p("L03","Ray queries return the nearest hit in front of the origin",
 "A ray hits an edge exactly when some non-negative multiple of its direction reaches a point of the edge (for an edge parallel to the ray: when both lie on one line, with the smaller of the two end-point parameters), and the value returned is that parameter; the closest-hit query on a polyline returns the point of the smallest strictly positive such parameter over all edges and nothing if there is none.",
 "every origin, every non-zero direction, every edge and every polyline length",
 "Tests check a few rays; the minimum over all edges and the sign conditions are for-all statements.",
 [L2],[("LineString2::ray_edge_intersection",L2),("LineString2::closest_ray_intersection",L2)])
p("L04","Self-intersection tests agree with the geometry of the polyline",
 "For a polyline of fewer than ten points without repeated consecutive points, self-intersection is reported exactly when two of its edges overlap in more than a point, or two edges share a point that is not an end point of both. For ten or more points it is reported only when that is the case, and, in general position (no edge is horizontal, two edges share at most one point and it is an end of both or inside both, at most two edges cross in one point, different vertices and crossings have different heights), always when that is the case.",
 "every polyline of every length",
 "Tests check a few fixed polylines; whether any of the quadratically many edge pairs is missed or wrongly reported depends on the input.",
 [L2,IS],[("LineString2::is_self_intersecting",L2),("Line2::intersection_point3",L2),("IntersectionData",IS)])
p("L05","Sweep-line results are genuine, and complete in general position",
 "Every intersection reported by the two sweep-line testers (segments, and vertex/edge lists) names at least two distinct existing input lines that all pass through the reported point. In general position (no segment is horizontal, two segments share at most one point and it is an end of both or inside both, at most two segments cross in one point, different end points and crossings have different heights) every crossing pair is reported and no line is named twice at one point; when asked to stop at the first, at most one intersection is reported, and one if there is a crossing. The sweep always ends, and input vertices are never changed. A segment with a coordinate that is not a finite number is refused with an error, any other is accepted.",
 "every finite set of non-degenerate segments, both settings of the end-point and stop-at-first flags, every event order",
 "Tests run fixed inputs; the event queue and neighbour bookkeeping must be right for every interleaving of start, end and crossing events.",
 [IS,IX],[("IntersectionData::with_lines, add_intersection_event, compute, handle_event, find_new_events",IS),("IntersectionTester (same stages)",IX),("sweepline_intersection",IS)],("inputs","histories"))
p("L06","Sequential convex hulls are the exact strict hull",
 "For any input points, in any order and with repetitions, every sequential hull function (scan and gift wrapping, on points and on indices) returns a closed counter-clockwise loop visiting exactly the corners of the convex hull of the input once each: no corner missing, no interior or edge point included. If all points lie on one line only its extreme points are returned; indexed variants return indices into the input.",
 "every list of finite points of any length and order, duplicates and collinear runs included",
 "Tests use random points in which collinear and duplicate points are rare, and fixed cases; corner cases depend on the input order.",
 [CH],[("graham_scan, indexed_graham_scan, indexed_graham_scan_no_loop",CH),("gift_wrap, indexed_gift_wrap, indexed_gift_wrap_no_loop",CH),("find_lowest_x, indexed_find_lowest_x, point_orientation",CH),("LineString2::convex_hull",L2)])
p("L07","The parallel convex hull equals the sequential one for every chunking",
 "The parallel convex hull returns the same closed counter-clockwise loop over exactly the corners of the convex hull of the selected points, for every chunk size and every order in which partial hulls are combined.",
 "every list of finite points, every chunk size of at least two, every reduction order of the thread pool",
 "Tests use a few chunk sizes on random points; the result must not depend on how the points are split nor on how partial hulls are merged.",
 [CH,L2],[("convex_hull_par",CH),("combine_indexed_convex_hull",CH),("indexed_graham_scan_no_loop",CH),("LineString2::convex_hull_par",L2)],("inputs","schedules"))
p("L08","Hull containment tests agree with the half-plane definition",
 "For a convex counter-clockwise hull with at least three corners and no three collinear ones, given open or closed, a point is inclusively contained exactly when it is left of or on every hull edge and exclusively contained exactly when it is strictly left of every edge. A hull is contained in another exactly when all of its points are inclusively contained (an empty one always), with the same answer from the sequential and the parallel test. A single point and nothing contain no hull. The polyline methods give these answers for a closed hull and no for an open one.",
 "every strictly convex hull of any size, every rotation of its vertex list, every query point and hull",
 "The tests probe a few points of a few hulls; the logarithmic search visits different vertices for every hull size and query position.",
 [CH,L2],[("contains_point_inclusive, contains_point_exclusive",CH),("contains_convex_hull, contains_convex_hull_par",CH),("LineString2::contains_point_*",L2)])
p("L09","Ramer-Douglas-Peucker keeps the ends and respects the distance",
 "Simplification returns a subsequence of the input that keeps the first and last point; between two consecutive kept points every dropped point is within the given distance of the line between them (segment in 2D, line in 3D), and a stretch is only split, at a farthest point, if some point of it is farther than the distance. The point and the index versions keep the same positions.",
 "every polyline (any length, 2D and 3D), every index list and every non-negative distance",
 "Tests compare a few fixed polylines with expected results; the error bound is a for-all over positions and recursion depths.",
 [L2,S2,L3,S3],[("LineString2::simplify_rdp, simplify_rdp_recursive",S2),("indexed_simplify_rdp (2D)",S2),("simplify_rdp, indexed_simplify_rdp (3D)",S3)])
p("L10","Visvalingam-Whyatt removes the requested number of least-area points",
 "Simplification returns a subsequence of the input (first point kept; in 3D and for closed inputs the last point may be dropped) in which the requested number of points, capped by what may be removed, is missing, and each removed point had the smallest triangle area with its then neighbours among all removable points at the time it was removed.",
 "every polyline without repeated equal areas deciding ties differently (any tie is accepted), 2D and 3D, every requested count",
 "Tests check the length of a few results; which point has the least area at each step depends on the whole removal history.",
 [L2,S2,L3,S3],[("simplify_vw (2D)",S2),("simplify_vw (3D)",S3),("triangle_area_squared_times_4",L2)])
p("L11","Dividing edges into shapes loses, invents and repeats nothing",
 "Every undirected input edge appears in exactly one returned shape exactly once, every consecutive pair of a shape is an input edge, and shapes never continue through a vertex that does not have exactly two neighbours. An open shape ends only at vertices that do not have exactly two neighbours.",
 "every list of edges between distinct vertices (duplicates and both directions allowed), any number of components, loops and junctions",
 "Tests run a handful of small graphs; losing or repeating an edge depends on the traversal order over the whole graph.",
 [SH],[("divide_into_shapes",SH),("unwind_line",SH),("adjacency_map, termination_candidate_nodes",SH),("VobU32",SH)])
p("L12","Bounding boxes are the exact bounds of what was added",
 "A 2D or 3D bounding box, built in any way from points, slices, iterators and other boxes, has as low and high corner exactly the componentwise minimum and maximum of everything added, and is empty exactly when nothing was added. Centre, extents, min/max, corner loop and component-wise mapping are those of that box; two 2D boxes compare equal exactly when both are empty or their corners agree, and a 3D box made from a low and a high corner has exactly these corners.",
 "every sequence of additions in every order and every mixture of ways to add",
 "Tests add a few fixed points; the bound must hold after every history of updates.",
 [L2,L3],[("Aabb2::with_points, update_with_point, update_with_points, update_with_aabb, apply",L2),("Aabb3 (same)",L3),("extents, center, min_max, convex_hull",L2),("From, PartialEq","src/linestring_2d/impls.rs"),("From","src/linestring_3d/impls.rs")],("inputs","histories"))
p("L13","Bounding-box containment is exact and inclusive",
 "A bounding box contains a point exactly when every component lies within its bounds, borders included; it contains a line exactly when it contains both end points and another box exactly when it contains both its corners. An empty box contains nothing and is contained in nothing.",
 "every box, point, line and box in 2D and 3D",
 "Tests probe a few points per box; each of the comparisons per axis and side must be right for every position.",
 [L2,L3],[("Aabb2::contains_point_inclusive, contains_line_inclusive, contains_aabb_inclusive",L2),("Aabb3 (same)",L3)])
p("L14","Moving between 2D and 3D through a plane loses nothing",
 "Copying points, lines and polylines from 2D into an axis plane in 3D and back gives the original; the 3D point lies in that plane (its third component is zero) and its other two components are the 2D components. The plane found for a box is the axis plane in which it is flat, and none unless it is flat in exactly one axis.",
 "every point, line and polyline, each of the three planes, every box",
 "Tests check single points per plane; the mapping must be the identity after a round trip for every input and plane, in every entry point.",
 [L2,L3],[("Plane::point_to_3d, point_to_2d, get_plane, get_plane_relaxed",L3),("LineString2::copy_to_3d, Line2::copy_to_3d",L2),("LineString3::copy_to_2d, Line3::copy_to_2d",L3)])
p("L15","The simple affine transform maps box to box and back",
 "The transform built from two non-empty boxes moves the centre of the first to the centre of the second and scales uniformly by the ratio of the second box's smallest to the first box's largest side (sides below one count as one); the back transform inverts it. The default is the identity, array variants agree with the point variants, empty boxes are refused, and a non-finite result is reported as an error instead of being returned.",
 "every pair of boxes and every point",
 "Tests transform a few points between a few boxes; the inverse property is for all points and boxes.",
 [L2],[("SimpleAffine::new, transform_ab, transform_ba, transform_ab_a, transform_ba_a",L2)])
p("L16","Discretizing visits every vertex and cuts every edge evenly",
 "Discretizing a polyline with a positive distance yields its vertices in order, and between consecutive vertices exactly the points that cut the edge into the least number of equal steps not longer than the distance (one step for an edge of length zero), then nothing more.",
 "every polyline of any length in 2D and 3D, every positive finite distance, every number of calls",
 "Tests discretize a few fixed polylines; the iterator state machine must be right for every edge length and position.",
 [L2,L3],[("DiscreteLineSegmentIterator::next, initialize_step (2D)",L2),("DiscreteLineSegmentIterator (3D)",L3)],("inputs","histories"))
p("L17","Distance and orientation predicates equal their definitions",
 "Squared point-line distances equal the squared Euclidean distance to the segment (2D) or to the infinite line (3D), and to the point if both ends coincide; the orientation predicates classify a point as left of, right of or on the line through two points exactly by the sign of the cross product.",
 "every triple of points in 2D and 3D",
 "Tests evaluate a few triples; the piecewise formula must be right in each region of the plane.",
 [L2,L3,CH],[("distance_to_line_squared, distance_to_line_squared_safe (2D)",L2),("distance_to_line_squared, distance_to_line_squared_safe (3D)",L3),("cross_2d, point_orientation, is_point_left, is_point_left_allow_collinear",CH)])
p("L18","Polyline views and comparisons reflect exactly the stored points",
 "A polyline is connected exactly when it is empty or its first and last points are equal; the point count excludes only that repeated end point of a longer polyline. Window and chunk iteration yield exactly the consecutive pairs and the disjoint pairs with the correct length and remainder, mapping applies the function to every point once and in place, and approximate comparison of polylines is true exactly for equal lengths and pairwise approximately equal points. A line made from two points or from their coordinates has exactly those ends in that order, and 2D lines compare equal exactly when their ends agree in order, and approximately equal when their ends agree in either order.",
 "every polyline of every length, every mapped function",
 "Tests use short fixed polylines; off-by-one errors show only at particular lengths.",
 [L2,L3,"src/linestring_2d/impls.rs","src/linestring_3d/impls.rs"],[("is_connected, point_count, window_iter, chunk_iter, apply",L2),("WindowIterator, ChunkIterator","src/linestring_2d/impls.rs"),("LineString3 (same)",L3),("Approx",L2),("Line2, Line3: new, From, PartialEq","src/linestring_2d/impls.rs")])
p("L19","Voronoi arcs are discretized on the parabola within the distance",
 "Discretizing a parabolic arc yields a polyline from the given start to the given end point whose vertices all lie, in order, on the parabola equidistant to the focus point and the segment's line, with the curve never farther than the given distance from the polyline. The 3D version has the same points with the negated distance to the focus as depth, and the straight variant has just the two end points.",
 "every non-degenerate segment, focus point off its line, start and end point on the parabola, and positive distance",
 "Tests discretize a few arcs; the subdivision stack behaves differently for every arc and distance.",
 [L2],[("VoronoiParabolicArc::discretize_2d, discretize_3d, discretize_3d_straight_line",L2)])
p("L20","Saved OBJ files describe exactly the given lines",
 "Saving groups of 3D lines to an OBJ file writes a file whose vertices and line elements describe exactly the given lines, group by group, with every index referring to the right vertex. Every vertex is an end of a given line and none is repeated; success is reported only when everything has been written, and nothing but a failing file operation makes saving fail.",
 "every list of groups of lines with finite coordinates, every object name without line breaks",
 "The tests never read a written file back.",
 [L3],[("save_to_obj_file",L3)])
out=os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))),"properties.jsonl")
open(out,"w").write("".join(json.dumps(x)+"\n" for x in P))
