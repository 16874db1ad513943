# Texts of the properties (source of properties.jsonl and MANIFEST.json: run tools/gen.py)
META = []


def P(id, title, statement, qtext, why, files, mech, over=('inputs',), state=None, observe=None, na=None, note=None):
    META.append(dict(id=id, title=title, statement=statement, qtext=qtext, why=why, files=files, mech=mech, over=list(over),
                     state=state, observe=observe, na=na, note=note))


P('C01', 'Knot span location is exact',
  'For every knot vector, degree and parameter of the domain, the reported span is one of the curve\'s own spans, it starts at or before the parameter and ends strictly after it. '
  'The end of the domain belongs to the last span.',
  'all knot vectors (non-decreasing, any length, any repetition), all degrees, all parameters of the domain',
  'The tests locate a handful of parameters in a few fixed knot vectors; repeated knots, parameters on knots and long vectors need a proof for every size.',
  ['cmmcore/nurbs_utils.h'], [('span search', 'nurbs_utils.h find_span')])

P('C02', 'Basis functions are the B-spline basis',
  'For every knot vector, span, parameter in that span and degree up to the supported maximum, the computed basis values are those of the Cox-de Boor recurrence. '
  'They are nonnegative and sum to one.',
  'all knot vectors, spans, parameters and degrees 1..8',
  'The tests do not check a basis value at all; an error in one term shows only for particular degrees and knot spacings.',
  ['cmmcore/nurbs_utils.h'], [('basis functions', 'nurbs_utils.h basis_funs')])

P('C03', 'Curve evaluation is the rational B-spline point',
  'Evaluating a curve at a parameter of its domain gives the weighted B-spline combination of its control points divided by the combined weight, for every degree, knot vector, control polygon and positive weights.',
  'all degrees 1..8, knot vectors, control points, positive weights, parameters',
  'Tests evaluate a few curves at a few parameters and mostly print the result; unequal weights and non-uniform knots are hardly reached.',
  ['cmmcore/nurbs_utils.h', 'cmmcore/nurbs.h'], [('point evaluation', 'nurbs_utils.h curve_point'), ('curve class evaluation', 'nurbs.h NURBSCurve::evaluate')])

P('C04', 'Surface evaluation is the rational tensor-product point',
  'Evaluating a surface at a parameter pair of its domain gives the tensor-product B-spline combination of its homogeneous control points divided by the combined weight, for every pair of degrees, knot vectors, control grid and weights with a nonzero combined weight.',
  'all degree pairs up to 8 (quick: up to 4), grid sizes, knot vectors, control points, weights, parameters',
  'Tests evaluate a few surfaces at a few parameters; a swapped direction or index is invisible on square grids with equal degrees.',
  ['cmmcore/nurbs_utils.h', 'cmmcore/nurbs.h'], [('point evaluation', 'nurbs_utils.h surface_point'), ('surface class evaluation', 'nurbs.h NURBSSurface::evaluate')])

P('C05', 'Derivatives are those of the evaluated geometry',
  'Basis-function derivatives and the derivatives of curves of every order are the exact derivatives of the basis functions and of the (rational) curve that evaluation computes; the derivative curve of a unit-weight curve, the derivative control points and the derivative surface describe exactly the derivative of their (homogeneous) source; '
  'finite-difference variants return the difference quotient of evaluated points, and the surface normal is the unit vector along the cross product of the u and v difference quotients.',
  'all degrees 1..8 (basis derivatives: quick 1..5, thorough 1..6), orders, knot vectors without over-repeated knots, control points, positive weights, parameters',
  'Tests print the derivatives of one quadratic curve; wrong factors show only for particular degrees, orders, weights or knot spacings.',
  ['cmmcore/nurbs_utils.h', 'cmmcore/nurbs.h'], [('basis derivatives', 'nurbs_utils.h ders_basis_funs'), ('curve derivatives', 'nurbs_utils.h curve_derivs_alg1, curve_deriv_cpts, get_nurbs_derivative; nurbs.h NURBSCurve::derivative, get_derivative, derivative_fdm'),
  ('surface derivatives', 'nurbs_utils.h rat_surface_derivs; nurbs.h NURBSSurface::get_derivative, derivative_u, derivative_v, normal')])

P('C06', 'Knot insertion does not move the geometry',
  'Inserting a parameter into a knot vector any admissible number of times adds exactly that many knots and control points, keeps the knot vector sorted, and the homogeneous curve described by the new control points is the old curve at every parameter. '
  'Weighted curves keep their shape, positive weights stay positive, and a surface is refined line by line in the chosen direction while the other direction is kept. Knot multiplicities are counted exactly.',
  'all degrees 1..8 (shape: quick 1..3, thorough also 4 except for inserting a new knot twice; surfaces: degrees up to 3, up to 6x4 points), existing multiplicities, insertion counts, spans, knot vectors, control points, and every parameter at which the curves are compared',
  'Tests insert one knot into one curve; wrong blending shows only for particular multiplicities, degrees or spans, and equality is needed at every parameter.',
  ['cmmcore/nurbs_utils.h', 'cmmcore/nurbs.h'], [('insertion', 'nurbs_utils.h knot_insertion; nurbs.h NURBSCurve::insert_knot; NURBSSurface::insert_knot, insert_knot_u, insert_knot_v'), ('knot vector', 'nurbs_utils.h knot_insertion_kv, find_multiplicity, getKnotMultiplicities')])

P('C07', 'Splitting and decomposition partition the geometry',
  'Splitting a curve strictly inside its domain yields two curves of the same degree on exactly the two parts of the domain whose knots and control points are those of the curve refined to full multiplicity there, so each part is the original geometry at every parameter of its part; '
  'with unit domains requested the parameters are scaled affinely to [0, 1] instead. A parameter at or outside the ends is refused. '
  'Surfaces are split the same way in either direction, subdivided into four parts at the given parameters or in the middle of the domain (first and second part in u, within these in v), and curves and surfaces are decomposed at every distinct inner knot into pieces in order.',
  'all degrees 1..8 (quick 1..5, unit domains quick 1..3), multiplicities of the parameter, knot vectors, control points, weights and parameters of the domain; surfaces of degrees up to 3 with up to 6x4 points; decomposition with up to 4 distinct knots',
  'Tests split one curve at one parameter; an off-by-one in the two halves shows only for particular multiplicities, degrees and spans.',
  ['cmmcore/nurbs.h', 'cmmcore/nurbs_utils.h'], [('splitting', 'nurbs.h NURBSCurve::split, NURBSSurface::split_surface_u, split_surface_v, subdivide'), ('decomposition', 'nurbs.h NURBSCurve::decompose, NURBSSurface::decompose; nurbs_utils.h uniqueKnots')])

P('C08', 'Isocurves and boundaries are curves of the surface',
  'Fixing one parameter of a surface with positive weights yields the curve of the other parameter: same degree, knots and domain as that direction of the surface, and control points (Euclidean, with weight) that make it pass through the surface point at every parameter, with the box of its control points. '
  'The four boundaries are the isocurves at the ends of the two domains, first u, then v.',
  'both directions, all degrees 1..8 (fixed direction: quick 1..5), grid sizes, knot vectors, control points, positive weights and parameters of the domain; member and free functions',
  'Tests extract isocurves of one surface; a swapped direction or a lost weight is invisible on square grids and unit weights.',
  ['cmmcore/nurbs.h', 'cmmcore/boundary_intersection.h'], [('isocurves', 'nurbs.h NURBSSurface::extract_isocurve; boundary_intersection.h extract_isocurve'),
  ('boundaries', 'nurbs.h NURBSSurface::extract_surface_boundaries; boundary_intersection.h extract_surface_boundaries')])

P('C09', 'Curves and surfaces are valid by construction',
  'A curve or surface built from control points and degrees has exactly those control points, a sorted knot vector with one knot per point and degree plus one besides (clamped and uniform unless the knots are given; uniform when periodic), and as domain the smallest and the largest knot. '
  'Setting knots, degree or control points keeps this; normalising maps the knots affinely onto [0, 1]. A periodic curve repeats its first degree points at its end and says so; copies, assignments and moves reproduce degree, points, knots, domain, box and kind without sharing state. An empty net is refused.',
  'all degrees 1..8 (periodic curves: quick 1..2, thorough 1..4), numbers of points, control points, weights and knots; construction of surfaces up to 4x4 points',
  'Tests build a few curves of fixed size; a wrong count, bound or stale domain shows only for particular sizes, degrees or sequences of calls.',
  ['cmmcore/nurbs.h'], [('curves', 'nurbs.h NURBSCurve constructors, generate_knots, generate_knots_periodic, normalize_knots, update_interval, set_control_points, make_periodic, is_periodic'),
  ('surfaces', 'nurbs.h NURBSSurface constructors, generate_knots_u, generate_knots_v, update_interval')])

P('C11', 'Bezier and polynomial forms are the same surface',
  'Converting a polynomial (unit-weight) Bezier surface to monomial form gives the coefficients of exactly the polynomial that the surface is, and converting a polynomial to Bezier form gives the unit-weight surface on [0, 1] x [0, 1] that is that polynomial, whatever the output held before. '
  'The partial derivatives and the normal (cross product of the partial derivatives) computed on the monomial form are the exact ones, and binomial coefficients are exact.',
  'all degree pairs 1..8 (quick 1..5; normals quick 1..3, thorough 1..5), all control points and coefficients; binomials up to 30',
  'Tests convert one bicubic patch; a wrong index or binomial cancels on symmetric degrees or special coefficients.',
  ['cmmcore/monomial.h', 'cmmcore/binom.h'], [('conversion', 'monomial.h bpmat, Monomial2D::set, to_bezier'), ('derivatives and normal', 'monomial.h Monomial2D::computePartialDerivative, computeNormal, cross'), ('binomials', 'binom.h binomial_coefficient')])

P('C12', 'Vector types obey vector algebra',
  'Arithmetic, dot and cross products, lengths, distances, projections, normalisation and equality of the 2-, 3- and 4-component vectors are those of real vector algebra for all operands, in every overload and in the in-place forms.',
  'all operands (components, scalars), all array lengths for the batched products',
  'Tests compare a few vectors; a wrong component, a skipped w or a single-precision step shows only for particular operands.',
  ['cmmcore/vec.h'], [('vector types', 'vec.h vec2, vec3, vec4'), ('batched products', 'vec.h dot_product')])

P('C13', 'Matrix algebra is exact',
  'Products, sums, determinants, inverses and 2x2 solves satisfy their defining equations for all entries: a matrix times its inverse is the identity, the solution solves the system, and singular input is reported instead of being inverted.',
  'all entries of 2x2 matrices and systems; dense matrices up to 3x3 with all entries',
  'Tests invert one or two matrices.',
  ['cmmcore/matrix.h', 'cmmcore/point_inversion.h'], [('2x2 matrices', 'matrix.h Matrix2x2'), ('dense matrices', 'matrix.h Matrix'), ('2x2 systems', 'point_inversion.h solve2x2')])

P('C14', 'Planes and frames represent what they were built from',
  'A plane built from coefficients, from an origin and a normal or from three points contains those points, has a unit normal along its equation and an origin lying on it. '
  'Signed distances move a point onto the plane, and reported intersections with rays, segments and other planes lie on all the objects intersected; a miss is reported only when there is none. A frame evaluates and inverts consistently.',
  'all planes, points, rays, segments and frames that are not degenerate; all array lengths',
  'Tests use one axis-aligned plane; a wrong sign or a lost offset cancels there.',
  ['cmmcore/plane.h'], [('construction', 'plane.h plane constructors, plane_eq_from_pts'), ('intersections', 'plane.h planeRayIntersection, planeLineIntersection, planePlaneIntersection, planePlanePlaneIntersection'), ('frames', 'plane.h cplane')])

P('C15', 'Bounding boxes are sound and tight',
  'The box of a point set contains every point and is contained in every box that does; merging and growing give the smallest box containing the operands. '
  'Two boxes are reported as meeting exactly when they share a point, and the common box holds exactly the common points. '
  'The box reported for a curve or surface with positive weights is the box of its Euclidean control points, also after the control points changed, and contains every evaluated point.',
  'all boxes, points and point sets of any size; curves of any size and degree; boxes of surfaces up to 3x3 points; evaluated points for degrees 1..8 (surfaces: quick 1..3)',
  'Tests use a few boxes; a swapped component or a strict comparison shows only for touching or one-axis-overlapping boxes.',
  ['cmmcore/aabb.h', 'cmmcore/nurbs.h'], [('boxes', 'aabb.h AABB'), ('boxes of curves and surfaces', 'nurbs.h NURBSCurve::rebuildAABB, aabb, set_control_points; NURBSSurface::bbox')])

P('C20', 'Closest points are closest',
  'The point returned for a line, ray line, segment or triangle lies on that object and no point of the object is nearer to the query point, in every overload.',
  'all query points, lines, segments of nonzero length and nondegenerate triangles',
  'Tests have no closest-point case that reaches every Voronoi region of a triangle; a wrong region test shows only for particular obtuse triangles and query points.',
  ['cmmcore/closest_point.h'], [('segments', 'closest_point.h closestPointOnSegm'), ('triangles', 'closest_point.h closestPointOnTriangle')])

P('C22', 'Adaptive integration keeps its error promise',
  'For every polynomial integrand up to degree four, every interval (also a reversed one), tolerance and depth limit, the value returned by adaptive Simpson integration differs from the true integral by no more than the reported error; the reported error exceeds the tolerance only when the depth limit is used up, and then by no more than what halving to that depth leaves; cubics are integrated exactly. '
  'The search for the upper limit returns a Newton step towards the wanted integral from its last iterate, which is the exact answer for a constant integrand.',
  'all quartic integrands, intervals, tolerances, depths, recursion histories, target integrals and initial guesses',
  'Tests integrate two functions with the default tolerance; a wrong sample, a tolerance that is not halved or an ignored depth limit shows only for particular integrands.',
  ['cmmcore/integrate.h'], [('adaptive rule', 'integrate.h adaptiveSimpson, integrate'), ('upper limit', 'integrate.h find_t1_newton')])

P('C23', 'Curve-curve intersection reports the meetings',
  'Intersecting two curves with ccx under a tolerance: every reported parameter pair lies in the domains of the two curves, and the curves are no further apart there than twice the tolerance. Every place where the curves meet is reported: for each pair of parameters at which the two curves have a common point there is a reported pair that equals, up to the tolerance in each parameter, the midpoints of two curve pieces that contain these parameters and whose boxes are smaller than the tolerance. '
  'Results that the caller already had in the list stay in front, unchanged.',
  'all curves with positive weights, all tolerances; by induction over the recursion (each step is verified against the contract of the recursive call), relying on the splitting of curves (C07), the boxes (C15) and that a curve lies in the box of its control points (C03); termination is not part of it',
  'Tests intersect a handful of curves; a lost quadrant or a wrong midpoint only shows for some positions.',
  ['cmmcore/ccx.h', 'cmmcore/nurbs.h', 'cmmcore/aabb.h'], [('recursion', 'ccx.h ccx'), ('pruning', 'aabb.h AABB::intersects')],
  note='Over the reals: where two boxes meet in a single point, rounding decides. Assumed: the contracts of NURBSCurve::split (C07) and of the boxes (C15).')
P('C24', 'Curve-surface intersections are intersections',
  'Every result of the curve-surface intersection csx has a curve parameter in the domain of the curve and surface parameters in the domain of the surface at which the two are no further apart than the tolerance; the reported point is the point of the curve there, and the kind is degenerate exactly when the tangent of the curve and the unit normal of the surface there have an inner product smaller than the tolerance in absolute value, transversal otherwise. '
  'A search of a pair of pieces adds at most one result. Whenever the search splits, at a result or at the midpoints, each half of the curve is searched against each quarter of the surface, except pairs that the separation test around the result found separate. A curve that touches the surface with an end is handled without an exception.',
  'all curves, surfaces and tolerances (parameter tolerance at least 1e-11), as arbitrary functions; one step of the search with the recursive search, evaluation, splitting, Newton\'s method, GJK and the separation test taken by contract (the answers of the last four are arbitrary)',
  'Which branch runs depends on where Newton\'s method happens to end; tests see a few of these.',
  ['cmmcore/csx.h'], [('search', 'csx.h NURBSCurveSurfaceIntersector::_curve_surface_intersect, _find_new_intersection, _is_valid_parameter, _is_degenerate'), ('entry', 'csx.h csx')],
  note='Completeness is not claimed: the separation tests and Newton\'s method are heuristics. Assumed: evaluation, derivative and normal are functions of the parameters (C03 to C05), pieces are the curve and the surface (C07).')
P('C25', 'Polygons are classified by geometry',
  'A point is inside a polygon exactly by the even-odd rule (a crossing counts an edge with its lower end at or below the point and its upper end strictly above, passing strictly to the right of the point), so points strictly inside a triangle of either orientation are inside and points strictly outside are not. '
  'The normals of a polygon are, one for each edge in order and closing the loop, the edge turned right, of unit length when asked for. '
  'Two polygons are reported apart exactly when the normal of some edge strictly separates them; otherwise as touching exactly when along some normal their extents only touch and neither polygon has all its vertices inside the other.',
  'all coordinates; normals of polygons of any size; point tests of at most 5 vertices (thorough: 6); pairs of polygons with 3 or 4 vertices each',
  'There is no test of these functions; a strict comparison or a dropped closing edge shows only for points level with a vertex or beyond the last edge.',
  ['cmmcore/polygon.h'], [('point test', 'polygon.h pointInPolygon2D'), ('normals', 'polygon.h polygonNormals'), ('two polygons', 'polygon.h polygonRelationship2D')])

P('C16', 'The bounding volume hierarchy finds what meets',
  'Whichever way it is built, a bounding volume hierarchy holds every object given exactly once, in a leaf with the object\'s box, and the box of every inner node is the smallest around its two subtrees; splitting a list of two or more objects puts every object on exactly one of two nonempty sides. '
  'A search reports exactly the objects whose closed box meets the target box (or contains the point), each once. Two trees are reported to intersect in exactly the pairs of objects whose boxes have a common volume of at least 1e-6, each pair once; the iterative search reports exactly the pairs whose closed boxes meet. A copied or assigned tree has the same boxes, objects and subtrees.',
  'all trees of any shape and size (searches, pairs, copies); building with at most 4 objects (thorough: up to 6), the iterative pair search with trees of at most two objects; all boxes',
  'Tests build a few trees from random boxes and do not compare the answers with a scan; touching boxes, equal boxes and copies are not reached.',
  ['cmmcore/bvh.hpp'], [('building', 'bvh.hpp split_objects, build_bvh_top_down, build_bvh_bottom_up, build_bvh'), ('search', 'bvh.hpp traverse_bvh, contains_point'), ('pairs', 'bvh.hpp intersect_bvh, intersect_bvh_iterative'), ('copies', 'bvh.hpp BVHNode')])

P('C17', 'The k-d tree answers as a scan of its points would',
  'A k-d tree built from a list holds each of its points exactly once, ordered at every node by one coordinate (left not above, right not below), whatever repetitions the list has; inserting adds one point and keeps this order. '
  'A range search reports exactly the stored points within the closed box, each once. The nearest neighbour reported is a stored point and no stored point is nearer to the query; an empty tree refuses the query. The size is the number of points.',
  'all lists of any length, all trees of any shape, all queries',
  'Tests build one small tree with distinct coordinates; a wrong pruning or tie rule shows only for repeated coordinates or for queries near a splitting plane.',
  ['cmmcore/kdtree.h'], [('building', 'kdtree.h KDTree::buildKDTree, build'), ('insertion', 'kdtree.h KDTree::insertRec, insert'), ('range search', 'kdtree.h KDTree::rangeSearchRec, rangeSearch'), ('nearest neighbour', 'kdtree.h KDTree::nearestNeighborRec, nearestNeighbor')])

P('C18', 'Views, slices and copies of multi-dimensional arrays address the right elements',
  'A MemoryView over a buffer with a given shape addresses the buffer in row-major order; its size is the product of the shape; an index outside the shape, or a wrong number of indices, is refused. A slice selects, per dimension, what Python\'s indexing rules select: '
  'a single index (counted from the end when negative; refused when out of range) drops the dimension, a range start:stop:step (missing or negative limits and negative steps included; limits beyond the end clamped; a zero step refused) keeps it with the matching elements in the matching order, '
  'and dimensions without a slice stay whole; more slices than dimensions are refused. Slices of slices follow the same rule. A reshape keeps the row-major order of the elements and is refused, leaving the view as it was, when the number of elements differs or the elements do not follow each other in memory. '
  'A copy, and a view serialised to bytes and read back, has the same shape and elements in memory of its own, also when the view is a slice with gaps or in reverse; a shortened byte sequence is refused.',
  'up to 3 dimensions; ranges over up to 3 (thorough 5) rows with every combination of given and missing limits from -6 to 6 and steps from -3 to 3 (-4 to 4), on plain, strided and reversed views; all element values',
  'Index arithmetic with negative and missing limits has many corner cases; the tests do not cover the view at all.',
  ['cmmcore/memoryview.h'], [('element access', 'memoryview.h MemoryView::operator(), operator[], size, compute_strides'), ('slices', 'memoryview.h MemoryView::slice'), ('copies', 'memoryview.h MemoryView::copy, reshape, serialize, deserialize')])
P('C19', 'Serialised curves come back the same',
  'Writing integers, truth values, real numbers, sequences of numbers or points, a curve, or a list of curves into a byte buffer and reading them back in the same order gives the same values: every integer and number, the number and order of the elements, '
  'and for curves the degree, control points with weights, knots, domain and box; a curve comes back marked periodic exactly when its first degree control points are repeated at its end. Reading consumes exactly the bytes that were written.',
  'all values of the entries; sequences of at most 6 (thorough 20) elements, curves of degree at most 4 (5) with at most 6 (8) control points, lists of at most 3 curves',
  'Tests write and read one fixed curve; offsets and lengths matter for every size and combination.',
  ['cmmcore/serialization.h'], [('encoding', 'serialization.h serializeInt, serializeDouble, serializeBool, serializeVectorDouble, serializeVectorVec4, serializeNURBSCurve, serializeNURBSCurves'), ('decoding', 'serialization.h deserializeInt, deserializeDouble, deserializeBool, deserializeVectorDouble, deserializeVectorVec4, deserializeNURBSCurve, deserializeNURBSCurves')])
