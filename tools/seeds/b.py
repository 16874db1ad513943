import sys, os
sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
from mkseed import mkseed
H = 'cmmcore/'
mkseed('S04', 'C17', [(H+'kdtree.h', '''        if ((axis == 0 && upper.x >= node->point.x) ||
            (axis == 1 && upper.y >= node->point.y) ||
            (axis == 2 && upper.z >= node->point.z)) {''', '''        if ((axis == 0 && upper.x > node->point.x) ||
            (axis == 1 && upper.y > node->point.y) ||
            (axis == 2 && upper.z > node->point.z)) {''')], r'''
#include <cstdio>
#include "cmmcore/kdtree.h"
using namespace cmmcore;
int main() {
    KDTree3D t;
    t.insert(vec3(1, 0, 0)); t.insert(vec3(1, 5, 0)); t.insert(vec3(0, 2, 2)); t.insert(vec3(4, 1, 1));
    auto r = t.rangeSearch(vec3(-1, -1, -1), vec3(1, 6, 3));
    printf("%zu\n", r.size());
    return r.size() != 3;
}
''', 'a point in the right subtree with the splitting coordinate of its ancestor, on the upper face of the box', 'the range search misses points that share the splitting coordinate')
mkseed('S05', 'C17', [(H+'kdtree.h', 'if (diff * diff < bestDistSq) {', 'if (std::abs(diff) < bestDistSq) {')], r'''
#include <cstdio>
#include "cmmcore/kdtree.h"
using namespace cmmcore;
int main() {
    KDTree3D t;
    t.insert(vec3(0, 0, 0)); t.insert(vec3(0.3, 0.5, 0)); t.insert(vec3(-0.2, 0.0, 0.01));
    t.insert(vec3(-0.01, 0.6, 0));
    vec3 q(0.02, 0.62, 0);
    KDTree3D u; std::vector<vec3> p{vec3(0,2,0), vec3(0.28,0.6,0), vec3(-0.2,0.62,0)};
    for (auto &x : p) u.insert(x);
    vec3 a = u.nearestNeighbor(vec3(0.02, 0.62, 0));
    printf("%g %g\n", a.x, a.y);
    return a.x != -0.2;
}
''', 'distances below one and the nearest point on the far side of a splitting plane', 'the far side is not visited, a farther point is reported')
mkseed('S06', 'C16', [(H+'bvh.hpp', '''    size_t mid = objects.size() / 2;
    return {std::vector<Object3D *>(objects.begin(), objects.begin() + mid),
            std::vector<Object3D *>(objects.begin() + mid, objects.end())};
  }

''', '''    // nothing to separate, one leaf is enough
    return {objects, {}};
  }

''')], r'''
#include <cstdio>
#include "cmmcore/bvh.hpp"
using namespace cmmcore;
int main() {
    Object3D a(AABB(vec3(1, 1, 1), vec3(1, 1, 1)), 1), b(AABB(vec3(1, 1, 1), vec3(1, 1, 1)), 2), c(AABB(vec3(5, 5, 5), vec3(6, 6, 6)), 3);
    std::vector<Object3D *> o{&a, &b, &c};
    auto t = build_bvh_top_down(o);
    std::vector<const Object3D *> r;
    traverse_bvh(t.get(), AABB(vec3(0, 0, 0), vec3(10, 10, 10)), r);
    printf("%zu\n", r.size());
    return r.size() != 3;
}
''', 'two point-like objects in the same place', 'only the first of coinciding point-like objects is kept in the tree')
mkseed('S07', 'C20', [(H+'closest_point.h', 'if (vc <= 0 && d1 >= 0 && d3 <= 0) {', 'if (vc <= 0 && d3 <= 0) {')], r'''
#include <cstdio>
#include "cmmcore/closest_point.h"
using namespace cmmcore;
int main() {
    vec3 a(0, 0, 0), b(1, 0, 0), c(-1, 0.1, 0), p(-0.9, -0.05, 0.3), r;
    closestPointOnTriangle(p, a, b, c, r);
    double best = 1e9;
    for (int i = 0; i <= 200; i++) for (int j = 0; i + j <= 200; j++) {
        vec3 x = a + (b - a) * (i / 200.) + (c - a) * (j / 200.);
        best = std::min(best, (x - p).length());
    }
    printf("%g %g\n", best, (r - p).length());
    return !((r - p).length() <= best + 1e-9);
}
''', 'an obtuse triangle and a query beyond its obtuse corner, on the outer side of the first edge', 'a point outside the triangle is returned')
mkseed('S08', 'C25', [(H+'polygon.h', '''    for (int i = 0; i < poly2.size(); i++) {
        vec2 edge(poly2[i], poly2[(i + 1) % poly2.size()]);''', '''    for (int i = 0; i + 1 < poly2.size(); i++) {
        vec2 edge(poly2[i], poly2[i + 1]);''')], r'''
#include <cstdio>
#include "cmmcore/polygon.h"
using namespace cmmcore;
int main() {
    polygon2 a{{0, 0}, {4, 0}, {4, 4}, {0, 4}}, b{{4.5, 2}, {10, 9}, {2, 4.5}};
    polygon2 c{{2.5, 4.6}, {10, 9}, {4.6, 2.5}};
    printf("%d %d\n", (int)polygonRelationship2D(a, b), (int)polygonRelationship2D(a, c));
    return polygonRelationship2D(a, c) != PolygonRelationship2D::DISTANCE;
}
''', 'two polygons separated only by the closing edge of the second', 'they are reported to intersect')
mkseed('S09', 'C22', [(H+'integrate.h', 'adaptiveSimpson(fun, m, b, fm, fb, f2, S_right, tol / 2.0, result, error, depth + 1,max_depth);', 'adaptiveSimpson(fun, m, b, fm, fb, f2, S_right, tol - tol / 4.0, result, error, depth + 1,max_depth);')], r'''
#include <cstdio>
#include "cmmcore/integrate.h"
using namespace cmmcore;
int main() {
    int bad = 0;
    for (double tol = 1e-6; tol < 10; tol *= 1.07) {
        double r, e; integrate([](double x) { return x * x * x * x; }, 0, 4, r, e, tol, 20);
        if (e > tol) { printf("tol %g err %g\n", tol, e); bad = 1; }
    }
    return bad;
}
''', 'an interval that is halved and a tolerance just above what the halves leave', 'the reported error exceeds the tolerance with depth to spare')
mkseed('S10', 'C14', [(H+'plane.h', 'if (t < 0.0 || t > 1.0)', 'if (t < 0.0 || t >= 1.0)')], r'''
#include <cstdio>
#include "cmmcore/plane.h"
using namespace cmmcore;
int main() {
    plane p(vec3(0, 0, 2), vec3(0, 0, 1)); vec3 r;
    bool h = p.planeLineIntersection(vec3(1, 1, 0), vec3(3, 3, 2), r);
    printf("%d\n", h);
    return !h;
}
''', 'a segment that ends exactly on the plane', 'the intersection is reported as a miss')
mkseed('S11', 'C13', [(H+'matrix.h', '''                    if (std::abs(augmented(j, i)) > std::abs(augmented(pivot, i))) {
                        pivot = j;
                    }''', '''                    if (augmented(j, i) > std::abs(augmented(pivot, i))) {
                        pivot = j;
                    }''')], r'''
#include <cstdio>
#include "cmmcore/matrix.h"
using namespace cmmcore;
int main() {
    MatrixD m(2, 2); m(0, 1) = 1; m(1, 0) = -1;
    try { MatrixD i = m.inverse(); printf("%g %g\n", i(0, 1), i(1, 0)); return !(i(0, 1) == -1 && i(1, 0) == 1); }
    catch (const std::exception &e) { puts(e.what()); return 1; }
}
''', 'a column whose only usable entries are negative while the diagonal entry is zero', 'an invertible matrix is reported as singular')
mkseed('S12', 'C15', [(H+'aabb.h', """        min.z <= other.max.z && max.z >= other.min.z) {
      result.min""", """        min.z < other.max.z && max.z >= other.min.z) {
      result.min""")], r"""
#include <cstdio>
#include "cmmcore/aabb.h"
using namespace cmmcore;
int main() {
    AABB a(vec3(0, 0, 1), vec3(1, 1, 2)), b(vec3(0, 0, 0), vec3(1, 1, 1)), r;
    bool h = a.intersection(b, r), k = b.intersection(a, r);
    printf("%d %d\n", h, k);
    return !(h && k);
}
""", 'two boxes that touch in one z plane, the upper one first', 'the common face is not reported')
mkseed('S13', 'C11', [(H+'monomial.h', 'std::pow(-1, j - k) *', '(j - k == 1 || j - k == 3 ? -1.0 : 1.0) *')], r'''
#include <cstdio>
#include "cmmcore/monomial.h"
using namespace cmmcore;
int main() {
    int bad = 0;
    for (int n = 1; n <= 6; n++) {
        MatrixD b = bpmat(n);
        // column k holds the coefficients of the k-th Bernstein polynomial
        for (int k = 0; k <= n; k++) for (double t : {0.25, 0.5, 0.75}) {
            double s = 0, e = binomial_coefficient(n, k);
            for (int j = n; j >= 0; j--) s = s * t + b(j, k);
            for (int j = 0; j < k; j++) e *= t;
            for (int j = k; j < n; j++) e *= 1 - t;
            if (std::abs(s - e) > 1e-9) { printf("degree %d basis %d\n", n, k); bad = 1; }
        }
    }
    return bad;
}
''', 'degree five or more', 'the monomial form of surfaces of higher degree has wrong signs')
