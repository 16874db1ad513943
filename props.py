# Checks: property -> contracts (harnesses in tu/) that decide it. See DESIGN.md.
def H(tu, entry, what, **kw):
    return dict(tu=tu, entry=entry, what=what, **kw)


BASIS = [(r'^cmmcore::find_span\(', '!span_contract'), (r'^cmmcore::basis_funs\(', '!basis_contract')]
DERS = [BASIS[0], (r'^cmmcore::ders_basis_funs\(', '!ders_contract')]
FUN = (r'std::__1::function<double \(double\)>::operator\(\)', '!fun_contract')
RECORDED = (FUN[0], '!fun_recorded')
INSERT = [(r'^cmmcore::find_span\(', '!span_contract'), (r'^cmmcore::find_multiplicity\(', '!multiplicity_contract'),
          (r'^cmmcore::knot_insertion\(int, std::__1::vector<double, std::__1::allocator<double>> const&, std::__1::vector<cmmcore::vec4, std::__1::allocator<cmmcore::vec4>> const&, double, int, int, int, std', '!insertion_contract'),
          (r'^cmmcore::knot_insertion_kv\(', '!kv_contract')]
SPLIT = [(r'^cmmcore::find_span\(', '!span_contract'), (r'^cmmcore::find_multiplicity\(', '!multiplicity_contract'),
         (r'^cmmcore::NURBSCurve::insert_knot\(', '!insert_contract'), (r'^cmmcore::NURBSCurve::update_interval\(', '!interval_contract'),
         (r'^cmmcore::NURBSCurve::rebuildAABB\(', '!box_contract'), (r'^cmmcore::NURBSCurve::normalize_knots\(', '!normalize_contract')]
CSX = [(r'^cmmcore::NURBSCurve::split\(', '!split_contract'), (r'^cmmcore::NURBSSurface::subdivide\(double, double\)', '!subdivide_contract'),
       (r'^cmmcore::NURBSCurve::evaluate\(', '!evaluate_curve'), (r'^cmmcore::NURBSSurface::evaluate\(', '!evaluate_surface'),
       (r'^cmmcore::NURBSCurve::derivative\(double, cmmcore::vec3&\)', '!tangent_curve'), (r'^cmmcore::NURBSSurface::normal\(', '!normal_surface'),
       (r'cmmcore::newtonsMethod<3', '!newton_contract'), (r'^cmmcore::AABBTest\(', '!boxes_apart'), (r'^cmmcore::GJK\(', '!gjk_contract'),
       (r'^cmmcore::SphericalCentralProjectionTest2\(', '!separable_contract'), (r'^cmmcore::NURBSCurveSurfaceIntersector::_curve_surface_intersect\(', 'intersect_contract')]
FREE = [(r'^cmmcore::NURBSCurve::update_interval\(', '!interval_free')]
VALID = [(r'^cmmcore::NURBSCurve::update_interval\(', '!interval_contract')]
BOXED = VALID + [(r'^cmmcore::NURBSCurve::rebuildAABB\(', '!box_free')]
CUT = {'autocut': 1}
LINE = [SPLIT[0], SPLIT[1]]
TRACED = [(r'^cmmcore::NURBSSurface::split_surface_u\(', '!split_u_traced'), (r'^cmmcore::NURBSSurface::split_surface_v\(', '!split_v_traced')]
PIECES = [(r'^std::__1::__hash_table<double.*::__insert_unique', '!hash_insert_model'), (r'^cmmcore::NURBSCurve::split\(', '!curve_split_traced'),
          (r'^cmmcore::NURBSSurface::split_surface_u\(', '!surface_split_u_traced'), (r'^cmmcore::NURBSSurface::split_surface_v\(', '!surface_split_v_traced')]
NODE_COPY = r'^cmmcore::BVHNode::BVHNode\(cmmcore::BVHNode const&\)'
KD = r'cmmcore::KDTree<.*>::%s\('
PROPS = {
    'C01': dict(level='proof', harnesses=[
        H('span.cpp', 'span_contains', 'span search'), H('span.cpp', 'span_unique', 'span search'),
    ]),
    'C02': dict(level='proof', harnesses=[
        H('basis.cpp', 'basis_coxdeboor', 'basis functions', enum={'p': (1, 8)}, split=['p']),
    ]),
    'C03': dict(level='proof', harnesses=[
        H('curve.cpp', 'curve_point_rational', 'curve point', enum={'p': (1, 8)}, split=['p']),
        H('curve.cpp', 'curve_point_end', 'curve point at the end of the domain', enum={'p': (1, 8)}, split=['p']),
        H('curve.cpp', 'curve_evaluate', 'evaluation through the curve class', enum={'p': (1, 8)}, split=['p'], stubs=BASIS),
        H('curve.cpp', 'curve_evaluate_end', 'evaluation through the curve class', enum={'p': (1, 8)}, split=['p'], stubs=BASIS),
    ]),
    'C04': dict(level='proof', harnesses=[
        H('surface.cpp', 'surface_evaluate', 'surface point', enum={'p': (1, 4), 'q': (1, 4)}, enum_thorough={'p': (1, 8), 'q': (1, 8)}, split=['p', 'q'], stubs=BASIS),
    ]),
    'C05': dict(level='proof', harnesses=[
        H('derivs.cpp', 'basis_derivatives', 'basis function derivatives', enum={'p': (1, 5), 'd': (0, 8)}, enum_thorough={'p': (1, 6)}, split=['p', 'd'], filter='d <= p'),
        H('derivs.cpp', 'derivative_recurrence', 'derivative recurrence', enum={'p': (1, 6)}, enum_thorough={'p': (1, 7)}, split=['p']),
        H('derivs.cpp', 'curve_derivatives_homogeneous', 'derivatives of a polynomial curve', enum={'p': (1, 8)}, split=['p'], stubs=DERS),
        H('derivs.cpp', 'curve_derivatives', 'derivatives through the curve class', enum={'p': (1, 8), 'd': (1, 3)}, enum_thorough={'p': (1, 6), 'd': (1, 4)}, split=['p', 'd'], stubs=DERS, opts={'autocut': 1}),
        H('derivs.cpp', 'derivative_curve', 'derivative as a curve', enum={'p': (1, 8)}, split=['p'], opts={'autocut': 1}),
        H('derivs.cpp', 'derivative_surface', 'derivative as a surface', split=['p', 'q'], enum={'p': (1, 3), 'q': (1, 3)}, bounded='degrees 1..3, one or two spans per direction'),
        H('derivs.cpp', 'derivative_control_points', 'control points of the derivatives', enum={'p': (1, 5), 'd': (0, 8)}, enum_thorough={'p': (1, 6)}, split=['p', 'd'], filter='d <= p'),
        H('derivs.cpp', 'rational_surface_derivatives', 'quotient rule for surfaces', enum={'d': (0, 3)}, enum_thorough={'d': (0, 4)}),
        H('derivs.cpp', 'curve_differences', 'difference quotients', stubs=[(r'^cmmcore::NURBSCurve::evaluate\(', '!curve_eval')]),
        H('derivs.cpp', 'surface_differences', 'difference quotients', stubs=[(r'^cmmcore::NURBSSurface::evaluate\(', '!surface_eval')]),
        H('derivs.cpp', 'surface_normal', 'surface normal', stubs=[(r'^cmmcore::NURBSSurface::derivative_u\(', '!surface_du'), (r'^cmmcore::NURBSSurface::derivative_v\(', '!surface_dv')]),
    ]),
    'C06': dict(level='proof', harnesses=[
        H('insert.cpp', 'knot_insertion_preserves', 'knot insertion', enum={'p': (1, 3), 's': (0, 7), 'num': (1, 8)}, enum_thorough={'p': (1, 4)},
          split=['p', 's', 'num'], filter='s + num <= p and not (p == 4 and s == 0 and num == 2)'),
        H('insert.cpp', 'knot_insertion_positive', 'weights under knot insertion', enum={'p': (1, 8), 's': (0, 7), 'num': (1, 8)}, split=['p', 's', 'num'], filter='s + num <= p'),
        H('knots.cpp', 'multiplicity_counts', 'multiplicity'),
        H('decompose.cpp', 'knot_multiplicities', 'multiplicities of all knots', bounded='at most 4 distinct knots, each at most twice'),
        H('ssurf.cpp', 'surface_insert_knot', 'insertion into surfaces', enum={'p': (1, 3), 'n': (1, 5), 'dir': (0, 1)}, split=['p', 'n', 'dir'], filter='p <= n <= p + 2', stubs=LINE, bounded='degrees up to 3x2, up to 6x4 points'),
        H('cinsert.cpp', 'curve_insert_knot', 'insertion through the curve class', stubs=INSERT, opts={'autocut': 1}),
    ]),
    'C07': dict(level='proof', harnesses=[
        H('split.cpp', 'curve_split', 'splitting of curves', enum={'p': (1, 5), 's': (0, 5)}, enum_thorough={'p': (1, 8), 's': (0, 8)}, split=['p', 's'], filter='s <= p', stubs=SPLIT, opts={'autocut': 1}),
        H('split.cpp', 'curve_split_unit', 'splitting with unit domains', enum={'p': (1, 3), 's': (0, 3)}, enum_thorough={'p': (1, 8), 's': (0, 8)}, split=['p', 's'], filter='s <= p', stubs=SPLIT, opts={'autocut': 1}),
        H('split.cpp', 'curve_split_refused', 'splitting at the ends'),
        H('ssurf.cpp', 'surface_split', 'splitting of surfaces', enum={'p': (1, 3), 'n': (1, 5), 'dir': (0, 1)}, split=['p', 'n', 'dir'], filter='p <= n <= p + 2', stubs=LINE, bounded='degrees up to 3x2, up to 6x4 points'),
        H('ssurf.cpp', 'surface_split_refused', 'splitting at the ends'),
        H('ssurf.cpp', 'surface_subdivide', 'subdivision', stubs=TRACED),
        H('decompose.cpp', 'unique_knots', 'distinct knots', stubs=PIECES, bounded='at most 4 distinct knots, each at most twice'),
        H('decompose.cpp', 'curve_decompose', 'decomposition of curves', stubs=PIECES, bounded='at most 4 distinct knots, each at most twice'),
        H('decompose.cpp', 'surface_decompose', 'decomposition of surfaces', stubs=PIECES, bounded='at most 3 spans in a direction'),
    ]),
    'C08': dict(level='proof', harnesses=[
        H('isocurve.cpp', 'isocurve', 'isocurves', enum={'p': (1, 5), 'dir': (0, 1), 'member': (0, 1)}, enum_thorough={'p': (1, 8)}, split=['p', 'dir', 'member'], opts=CUT, stubs=BASIS + [
            (VALID[0][0], '!interval_contract'), (BOXED[1][0], '!box_recorded'), (r'^cmmcore::NURBSCurve::generate_knots\(', '!knots_contract')]),
        H('isocurve.cpp', 'boundaries', 'boundaries', stubs=[(r'^cmmcore::NURBSSurface::extract_isocurve\(', '!iso_member'), (r'^cmmcore::extract_isocurve\(', '!iso_free')]),
    ]),
    'C09': dict(level='proof', harnesses=[
        H('validity.cpp', 'curve_interval', 'domain of a curve', enum={'how': (0, 3)}, split=['how']),
        H('validity.cpp', 'curve_open_knots', 'generated knots', stubs=VALID, opts=CUT),
        H('validity.cpp', 'curve_periodic_knots', 'generated knots', stubs=VALID, opts=CUT),
        H('validity.cpp', 'curve_normalize_knots', 'normalised knots', stubs=[(VALID[0][0], '!interval_between_contract')], opts=CUT),
        H('validity.cpp', 'curve_construct', 'construction', enum={'how': (0, 8)}, split=['how'], stubs=BOXED, opts=CUT),
        H('validity.cpp', 'curve_set_control_points', 'new control points', enum={'periodic': (0, 1)}, split=['periodic'], stubs=BOXED, opts=CUT),
        H('validity.cpp', 'curve_periodic', 'periodic curves', enum={'p': (1, 2), 'closed': (0, 1), 'how': (0, 1)}, enum_thorough={'p': (1, 4)}, split=['p', 'closed', 'how'], stubs=BOXED),
        H('validity.cpp', 'curve_copies', 'copies', enum={'how': (0, 2)}, split=['how'], stubs=BOXED, opts=CUT),
        H('validity.cpp', 'surface_open_knots', 'generated knots of a surface', enum={'dir': (0, 1)}, stubs=BOXED, opts=CUT),
        H('validity.cpp', 'surface_intervals', 'domain of a surface', stubs=BOXED, opts=CUT),
        H('validity.cpp', 'surface_construct', 'construction of a surface', enum={'n': (2, 4), 'm': (2, 4), 'p': (1, 3), 'q': (1, 3)}, split=['n', 'm'], stubs=BOXED, opts=CUT, bounded='nets of at most 4x4 points, degrees 1..3'),
        H('validity.cpp', 'surface_construct_refused', 'construction of a surface', stubs=BOXED, opts=CUT),
    ]),
    'C11': dict(level='proof', harnesses=[
        H('monomial.cpp', 'binomials', 'binomial coefficients'),
        H('monomial.cpp', 'bezier_matrix', 'conversion matrix', enum={'n': (0, 8)}),
        H('monomial.cpp', 'monomial_of_bezier', 'Bezier to polynomial', enum={'p': (1, 5), 'q': (1, 5)}, enum_thorough={'p': (1, 8), 'q': (1, 8)}, split=['p', 'q']),
        H('monomial.cpp', 'bezier_of_monomial', 'polynomial to Bezier', enum={'p': (1, 5), 'q': (1, 5), 'how': (0, 4)}, enum_thorough={'p': (1, 8), 'q': (1, 8)}, split=['p', 'q']),
        H('monomial.cpp', 'monomial_derivative', 'derivatives of polynomials', enum={'p': (1, 5), 'q': (1, 5)}, enum_thorough={'p': (1, 8), 'q': (1, 8)}, split=['p', 'q']),
        H('monomial.cpp', 'monomial_normal', 'normals of polynomials', enum={'p': (1, 3), 'q': (1, 3)}, enum_thorough={'p': (1, 5), 'q': (1, 5)}, split=['p', 'q']),
    ]),
    'C12': dict(level='proof', harnesses=[
        H('vec.cpp', e, w) for e, w in [
            ('vec2_algebra', 'arithmetic of vec2'), ('vec2_metric', 'length, dot and cross product of vec2'), ('vec3_algebra', 'arithmetic of vec3'),
            ('vec3_metric', 'length, dot and cross product of vec3'), ('vec3_projection', 'projections of vec3'), ('vec3_unit', 'normalisation of vec3'),
            ('vec4_algebra', 'arithmetic of vec4'), ('vec4_projective', 'projection of vec4'), ('vec_equality', 'equality'), ('dot_products', 'batched dot products')]
    ]),
    'C13': dict(level='proof', harnesses=[
        H('matrix.cpp', 'matrix2_algebra', '2x2 arithmetic'), H('matrix.cpp', 'matrix2_inverse', '2x2 inverse'), H('matrix.cpp', 'matrix2_singular', 'singular 2x2'),
        H('matrix.cpp', 'solve2x2_solves', '2x2 linear systems'),
        H('matrix.cpp', 'matrixd_product', 'product of dense matrices', bounded='at most 3x3'),
        H('matrix.cpp', 'matrixd_inverse', 'inverse of dense matrices', bounded='at most 3x3'),
    ]),
    'C14': dict(level='proof', harnesses=[
        H('plane.cpp', 'plane_from_coefficients', 'construction'), H('plane.cpp', 'plane_from_origin_normal', 'construction'), H('plane.cpp', 'plane_from_points', 'construction'),
        H('plane.cpp', 'plane_distance', 'signed distance'), H('plane.cpp', 'plane_ray', 'ray'), H('plane.cpp', 'plane_segment', 'segment'), H('plane.cpp', 'plane_plane', 'two planes'),
        H('plane.cpp', 'plane_plane_plane', 'three planes'), H('plane.cpp', 'points_coplanar', 'coplanarity', opts={'autocut': 1}), H('plane.cpp', 'frame_round_trip', 'frames'),
    ]),
    'C15': dict(level='proof', harnesses=[
        H('aabb.cpp', 'aabb_intersects', 'overlap test'), H('aabb.cpp', 'aabb_intersection', 'common box'), H('aabb.cpp', 'aabb_merge', 'union'), H('aabb.cpp', 'aabb_expand', 'growing'),
        H('aabb.cpp', 'aabb_of_points', 'box of a point set'),
        H('boxes.cpp', 'curve_box', 'box of a curve', enum={'how': (0, 4)}, stubs=FREE, opts={'autocut': 1}),
        H('boxes.cpp', 'curve_box_of_3d_points', 'box of a curve', stubs=FREE, opts={'autocut': 1}),
        H('boxes.cpp', 'surface_box', 'box of a surface', enum={'n': (1, 3), 'm': (1, 3)}, split=['n', 'm'], stubs=FREE, opts={'autocut': 1}, bounded='nets of at most 3x3 points'),
        H('curve.cpp', 'curve_in_box', 'curve inside its box', enum={'p': (1, 8)}, split=['p'], stubs=BASIS),
        H('surface.cpp', 'surface_in_box', 'surface inside its box', enum={'p': (1, 3), 'q': (1, 3)}, enum_thorough={'p': (1, 8), 'q': (1, 8)}, split=['p', 'q'], stubs=BASIS),
    ]),
    'C20': dict(level='proof', harnesses=[
        H('closest.cpp', 'closest_on_line', 'lines and rays'), H('closest.cpp', 'closest_on_segment', 'segments'), H('closest.cpp', 'closest_on_segment_origin', 'segments seen from the origin'),
        H('closest.cpp', 'closest_on_triangle_origin', 'triangles seen from the origin'),
        H('closest.cpp', 'closest_on_triangle', 'triangles', stubs=[(r'cmmcore::closestPointOnTriangle\(cmmcore::vec3 const&, cmmcore::vec3 const&, cmmcore::vec3 const&\)', '!tri_contract')]),
    ]),
    'C22': dict(level='proof', harnesses=[
        H('integrate.cpp', 'adaptive_simpson', 'adaptive Simpson rule', stubs=[FUN, (r'^cmmcore::adaptiveSimpson\(', 'adaptive_contract')]),
        H('integrate.cpp', 'integrate_quartic', 'integration', stubs=[FUN, (r'^cmmcore::adaptiveSimpson\(', '!adaptive_contract')]),
        H('integrate.cpp', 'find_upper_limit', 'search of the upper limit', stubs=[RECORDED, (r'^cmmcore::integrate\(', '!integrate_contract')], opts={'autocut': 1}),
        H('integrate.cpp', 'find_upper_limit_constant', 'search of the upper limit', stubs=[RECORDED, (r'^cmmcore::integrate\(', '!integrate_contract')]),
    ]),
    'C23': dict(level='proof', harnesses=[
        H('ccx.cpp', 'meetings', 'curve-curve intersection', enum={'n': (0, 2)}, split=['n'], stubs=[(r'^cmmcore::NURBSCurve::split\(', '!split_contract'), (r'^cmmcore::ccx\(', 'ccx_contract')]),
    ]),
    'C24': dict(level='proof', harnesses=[
        H('csx.cpp', 'hits', 'curve-surface intersection', stubs=CSX),
    ]),
    'C25': dict(level='proof', harnesses=[
        H('polygon.cpp', 'point_in_polygon', 'even-odd rule', enum={'n': (0, 5)}, enum_thorough={'n': (0, 6)}, split=['n'], bounded='at most 5 vertices (thorough: 6)'),
        H('polygon.cpp', 'point_in_triangle', 'triangles'),
        H('polygon.cpp', 'polygon_normals', 'edge normals', stubs=[(r'std::__1::vector<cmmcore::vec2, .*>::emplace_back<', '!emplace2')], opts={'autocut': 1}),
        H('polygon.cpp', 'polygon_relationship', 'position of two polygons', enum={'n': (3, 4), 'm': (3, 4)}, split=['n', 'm'], stubs=[(r'^cmmcore::pointInPolygon2D\(', '!point_contract')], bounded='3 or 4 vertices each'),
    ]),
    'C16': dict(level='proof', harnesses=[
        H('bvh.cpp', 'traverse_step', 'search', stubs=[(r'^cmmcore::traverse_bvh\(', 'traverse_contract')]),
        H('bvh.cpp', 'contains', 'search', stubs=[(r'^cmmcore::traverse_bvh\(', '!traverse_root')]), H('bvh.cpp', 'null_trees', 'search'),
        H('bvh.cpp', 'lemma_volume', 'pairs'),
        H('bvh.cpp', 'intersect_step', 'pairs', enum={'where1': (0, 2), 'where2': (0, 2)}, split=['where1', 'where2'], stubs=[(r'^cmmcore::intersect_bvh\(', 'intersect_contract')]),
        H('bvh.cpp', 'intersect_iterative', 'pairs', enum={'n': (0, 2), 'm': (0, 2)}, split=['n', 'm'], bounded='trees of at most two objects'),
        H('bvh.cpp', 'split', 'building', enum={'n': (0, 4)}, enum_thorough={'n': (0, 5)}, split=['n'], bounded='at most 4 objects (thorough: 5)'),
        H('bvh.cpp', 'top_down', 'building', enum={'n': (0, 4)}, enum_thorough={'n': (0, 6)}, split=['n'], bounded='at most 4 objects (thorough: 6)',
          stubs=[(r'^cmmcore::split_objects\(', '!split_contract'), (r'^cmmcore::build_bvh_top_down\(', 'build_contract')]),
        H('bvh.cpp', 'bottom_up', 'building', enum={'n': (0, 4)}, enum_thorough={'n': (0, 5)}, split=['n'], bounded='at most 4 objects (thorough: 5)'),
        H('bvh.cpp', 'copy_step', 'copies', stubs=[(NODE_COPY, 'copy_contract')]), H('bvh.cpp', 'assign', 'copies', stubs=[(NODE_COPY, '!copy_contract')]), H('bvh.cpp', 'children', 'copies'),
    ]),
    'C17': dict(level='proof', harnesses=[
        H('kdtree.cpp', 'build_step', 'building', stubs=[(KD % 'buildKDTree', 'build_contract'), (r'std::__1::nth_element<', '!nth_contract')]),
        H('kdtree.cpp', 'build', 'building', stubs=[(KD % 'buildKDTree', '!build_root'), (KD % 'insertRec', 'insert_contract')]),
        H('kdtree.cpp', 'insert_step', 'insertion', stubs=[(KD % 'insertRec', 'insert_contract')]),
        H('kdtree.cpp', 'insert', 'insertion', stubs=[(KD % 'insertRec', '!insert_root')]), H('kdtree.cpp', 'insert_first', 'insertion'),
        H('kdtree.cpp', 'range_step', 'range search', stubs=[(KD % 'rangeSearchRec', 'range_contract')]),
        H('kdtree.cpp', 'range', 'range search', stubs=[(KD % 'rangeSearchRec', '!range_root')]), H('kdtree.cpp', 'range_null', 'range search'),
        H('kdtree.cpp', 'nearest_step', 'nearest neighbour', enum={'axis': (0, 2), 'where': (0, 3)}, split=['axis', 'where'], stubs=[(KD % 'nearestNeighborRec', 'nearest_contract')]),
        H('kdtree.cpp', 'nearest', 'nearest neighbour', stubs=[(KD % 'nearestNeighborRec', '!nearest_root')]),
    ]),
    'C18': dict(level='proof', harnesses=[
        H('view.cpp', 'access', 'MemoryView constructor, size, operator()', enum={'d': (1, 3), 'a': (0, 3), 'b': (1, 3), 'c': (1, 3)}, split=['d', 'a', 'b', 'c'], filter='(d > 1 or b == 1) and (d > 2 or c == 1)', bounded='at most 3 dimensions of at most 3'),
        H('view.cpp', 'first_index', 'MemoryView::operator[]', enum={'d': (1, 3), 'a': (0, 3), 'b': (1, 2), 'c': (1, 2), 'i': (0, 4)}, split=['d', 'a'], bounded='at most 3 dimensions of at most 3'),
        H('view.cpp', 'one_slice', 'MemoryView::slice, a range of one dimension', enum={'n': (0, 3), 'step': (-3, 3), 'hs': (0, 1), 'he': (0, 1), 'rest': (1, 2), 'off': (0, 2)}, enum_thorough={'n': (0, 5), 'step': (-4, 4), 'hs': (0, 1), 'he': (0, 1), 'rest': (1, 2), 'off': (0, 2)}, split=['n', 'step', 'off'], bounded='rows at most 3 (thorough: 5), steps from -3 to 3 (4), limits from -6 to 6'),
        H('view.cpp', 'slices', 'MemoryView::slice, several dimensions', enum={'d': (1, 3), 'm': (0, 4), 'k0': (0, 2), 'k1': (0, 2), 'k2': (0, 2), 'k3': (0, 2)}, split=['d', 'm', 'k0', 'k1'], filter='(m > 0 or k0 == 0) and (m > 1 or k1 == 0)', bounded='at most 3 dimensions of at most 3'),
        H('view.cpp', 'reshape', 'MemoryView::reshape', enum={'a': (1, 4), 'b': (1, 3), 'how': (0, 2), 'x': (1, 6), 'y': (0, 3)}, split=['a', 'b'], bounded='at most 4 x 3 elements'),
        H('view.cpp', 'copy', 'MemoryView::copy', enum={'a': (1, 3), 'b': (1, 3), 'how': (0, 2)}, split=['how'], bounded='at most 3 x 3 elements'),
        H('view.cpp', 'round_trip', 'MemoryView::serialize, deserialize', enum={'a': (1, 3), 'b': (1, 3), 'how': (0, 2), 'cut': (0, 2)}, split=['how'], bounded='at most 3 x 3 elements'),
    ]),
    'C19': dict(level='proof', harnesses=[
        H('serial.cpp', 'scalars', 'single values'),
        H('serial.cpp', 'vectors', 'sequences', enum={'n': (0, 6)}, enum_thorough={'n': (0, 20)}, bounded='at most 6 elements (thorough: 20)'),
        H('serial.cpp', 'round_trip', 'one curve', enum={'p': (1, 4), 'n': (2, 6)}, enum_thorough={'p': (1, 5), 'n': (2, 8)}, split=['p', 'n'], filter='n > p', bounded='degree at most 4, at most 6 control points (thorough: 5, 8)'),
        H('serial.cpp', 'round_trip_many', 'lists of curves', enum={'k': (0, 3)}, split=['k'], bounded='at most 3 curves of 2 to 4 control points'),
    ]),
}
