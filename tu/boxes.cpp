#include "vc.h"
#include "ref.h"
#include <algorithm>
#include <numeric>
#include "cmmcore/nurbs.h"
using namespace cmmcore;
static const long MAXN = VC_SYM ? 100000 : 20;
template<class V> static bool in(const AABB &b, const V &p) {
    return b.min.x <= p.x & p.x <= b.max.x & b.min.y <= p.y & p.y <= b.max.y & b.min.z <= p.z & p.z <= b.max.z;
}
extern "C" void interval_free(NURBSCurve *) {}    // sets the interval, nothing else (C09)
// the box of a curve is the smallest one that holds its control points: they lie in an arbitrary box [lo, hi], so does it
VC_HARNESS(curve_box) {
    NURBSCurve &c = *new NURBSCurve;
    const long n = vc_int("n", 2, MAXN), p = vc_int("p", 1, 8);
    vc_assume(p < n);
    double lo[4], hi[4];
    for (int i = 0; i < 4; ++i) { lo[i] = vc_real("lo", -8, 8); hi[i] = vc_real("hi", -8, 8); if (!VC_SYM && lo[i] > hi[i]) std::swap(lo[i], hi[i]); }
    auto &P = *new std::vector<vec4>;
    vc_sym_vec_in(&P, n, 4, "P", lo, hi);
    c._degree = p;
    for (int i = 0; i < 3; ++i) { c._aabb.min[i] = vc_real("old", -8, 8); c._aabb.max[i] = vc_real("old", -8, 8); }
    AABB b;
    switch (vc_enum("how", 0, 4)) {
    case 0: c.control_points = P; c.rebuildAABB(); b = c.aabb(); break;
    case 1: c.control_points = P; b = c.bbox(); break;
    case 2: c.set_control_points(P); b = c.aabb(); break;
    case 3: { NURBSCurve &d = *new NURBSCurve(P, (int)p); b = d.aabb(); break; }
    case 4: { auto &U = *new std::vector<double>; vc::reals(U, n + p + 1, "U", -8, 8, vc::SORTED); NURBSCurve &d = *new NURBSCurve(P, (int)p, U, false); b = d.aabb(); break; }
    }
    VC_FORALL(i, 0, n) vc_check(in(b, P[i]), "every control point is inside");
    for (int d = 0; d < 3; ++d) { vc_check_le(lo[d], b.min[d], "no smaller box holds the control points"); vc_check_le(b.max[d], hi[d], "no smaller box holds the control points"); }
}
VC_HARNESS(curve_box_of_3d_points) {
    const long n = vc_int("n", 2, MAXN), p = vc_int("p", 1, 8);
    vc_assume(p < n);
    double lo[3], hi[3];
    for (int i = 0; i < 3; ++i) { lo[i] = vc_real("lo", -8, 8); hi[i] = vc_real("hi", -8, 8); if (!VC_SYM && lo[i] > hi[i]) std::swap(lo[i], hi[i]); }
    auto &P = *new std::vector<vec3>;
    vc_sym_vec_in(&P, n, 3, "P", lo, hi);
    NURBSCurve &c = *new NURBSCurve(P, (int)p);
    const AABB &b = c.aabb();
    VC_FORALL(i, 0, n) { vc_check(in(b, P[i]), "every control point is inside"); for (int d = 0; d < 4; ++d) vc_check_eq(c.control_points[i][d], d < 3 ? P[i][d] : 1, "control points"); }
    for (int d = 0; d < 3; ++d) { vc_check_le(lo[d], b.min[d], "no smaller box holds the control points"); vc_check_le(b.max[d], hi[d], "no smaller box holds the control points"); }
}
VC_HARNESS(surface_box) {
    NURBSSurface &s = *new NURBSSurface;
    const long n = vc_enum("n", 1, 3), m = vc_enum("m", 1, 3);
    s._size = {(size_t)n, (size_t)m};
    double lo[3], hi[3];
    for (int i = 0; i < 3; ++i) { lo[i] = vc_real("lo", -8, 0); hi[i] = vc_real("hi", 0, 8); }
    s._control_points.resize(n);
    for (auto &r : s._control_points) for (long j = 0; j < m; ++j) {
        vec3 e(vc_real("x", -8, 8), vc_real("y", -8, 8), vc_real("z", -8, 8));
        const double w = vc_real("w", 0.5, 4);
        vc_assume(w > 0);
        for (int i = 0; i < 3; ++i) { if (!VC_SYM) e[i] = e[i] < lo[i] ? lo[i] : e[i] > hi[i] ? hi[i] : e[i]; vc_assume(lo[i] <= e[i] & e[i] <= hi[i]); }
        r.push_back(vec4(e.x * w, e.y * w, e.z * w, w));
    }
    for (int i = 0; i < 3; ++i) { s._bbox.min[i] = vc_real("old", -8, 8); s._bbox.max[i] = vc_real("old", -8, 8); }
    const AABB b = s.bbox();
    for (auto &r : s._control_points) for (auto &c : r) for (int d = 0; d < 3; ++d) {
        const double x = c[d] / c.w;
        vc_check_le(b.min[d], x, "every control point is inside"); vc_check_le(x, b.max[d], "every control point is inside");
    }
    for (int d = 0; d < 3; ++d) { vc_check_le(lo[d], b.min[d], "no smaller box holds the control points"); vc_check_le(b.max[d], hi[d], "no smaller box holds the control points"); }
}
