#include "vc.h"
#include <vector>
#include <algorithm>
#include <numeric>
#include "cmmcore/aabb.h"
using namespace cmmcore;
static vec3 v3(const char *n) { double x = vc_real(n, -8, 8), y = vc_real(n, -8, 8), z = vc_real(n, -8, 8); return vec3(x, y, z); }
static AABB box(const char *n) {
    vec3 a = v3(n), b = v3(n);
    if (!VC_SYM) { vec3 c(std::min(a.x, b.x), std::min(a.y, b.y), std::min(a.z, b.z)), d(std::max(a.x, b.x), std::max(a.y, b.y), std::max(a.z, b.z)); a = c; b = d; }
    vc_assume(a.x <= b.x && a.y <= b.y && a.z <= b.z);
    return AABB(a, b);
}
static bool in(const AABB &b, const vec3 &p) { return b.min.x <= p.x & p.x <= b.max.x & b.min.y <= p.y & p.y <= b.max.y & b.min.z <= p.z & p.z <= b.max.z; }
VC_HARNESS(aabb_intersects) {
    AABB a = box("a"), b = box("b");
    vec3 p = v3("p"), q(std::max(a.min.x, b.min.x), std::max(a.min.y, b.min.y), std::max(a.min.z, b.min.z));
    bool r = a.intersects(b);
    if (r) vc_check(in(a, q) & in(b, q), "boxes reported as meeting share a point");
    else vc_check(!(in(a, p) & in(b, p)), "boxes reported as disjoint share no point");
    vc_check(r == b.intersects(a), "symmetric");
}
VC_HARNESS(aabb_intersection) {
    AABB a = box("a"), b = box("b"), c(v3("old"), v3("old"));
    vec3 p = v3("p");
    if (a.intersection(b, c)) {
        vc_check(in(c, p) == (in(a, p) & in(b, p)), "the common box holds exactly the common points");
        vc_check(c.min.x <= c.max.x & c.min.y <= c.max.y & c.min.z <= c.max.z, "the common box is not empty");
    } else vc_check(!(in(a, p) & in(b, p)), "a refused pair has no common point");
}
VC_HARNESS(aabb_merge) {
    AABB a = box("a"), b = box("b"), m = a.merge(b), k = box("k");
    vec3 p = v3("p");
    if (in(a, p)) vc_check(in(m, p), "the merged box contains both boxes"); if (in(b, p)) vc_check(in(m, p), "the merged box contains both boxes");
    if (!VC_SYM && vc_int("big", 0, 1)) k = AABB(vec3(-9, -9, -9), vec3(9, 9, 9));
    if (in(k, a.min) & in(k, a.max) & in(k, b.min) & in(k, b.max)) vc_check(in(k, m.min) & in(k, m.max), "no smaller box contains both");
    AABB e, u = e.merge(a);
    for (int c = 0; c < 3; ++c) vc_assume(e.min[c] >= a.max[c] && e.max[c] <= a.min[c]);
    vc_check(e.infinity(), "the default box is the empty one");
    vc_check_eq(u.min.x, a.min.x, "the empty box is neutral"); vc_check_eq(u.min.y, a.min.y, "the empty box is neutral"); vc_check_eq(u.min.z, a.min.z, "the empty box is neutral");
}
VC_HARNESS(aabb_expand) {
    AABB a = box("a"), m = a, k = box("k");
    vec3 p = v3("p"), q = v3("q");
    m.expand(q);
    vc_check(in(m, q), "the point is inside");
    if (in(a, p)) vc_check(in(m, p), "the old box is inside");
    if (!VC_SYM && vc_int("big", 0, 1)) k = AABB(vec3(-9, -9, -9), vec3(9, 9, 9));
    if (in(k, a.min) & in(k, a.max) & in(k, q)) vc_check(in(k, m.min) & in(k, m.max), "no smaller box will do");
    vc_check_eq(a.volume(), (a.max.x - a.min.x) * (a.max.y - a.min.y) * (a.max.z - a.min.z), "volume");
    vc_check_le(0, a.volume(), "volume is not negative");
}
VC_HARNESS(aabb_of_points) {
    const long n = vc_int("n", 1, 100000);
    double lo[3], hi[3];
    for (int i = 0; i < 3; ++i) { lo[i] = vc_real("lo", -8, 8); hi[i] = vc_real("hi", -8, 8); if (!VC_SYM && lo[i] > hi[i]) std::swap(lo[i], hi[i]); }
    std::vector<vec3> pts; vc_sym_vec_in(&pts, n, 3, "pts", lo, hi);
    AABB b(pts);
    VC_FORALL(i, 0, n) vc_check(in(b, pts[i]), "every point is inside");
    for (int c = 0; c < 3; ++c) { vc_check_le(lo[c], b.min[c], "every box holding the points holds the bounding box"); vc_check_le(b.max[c], hi[c], "every box holding the points holds the bounding box"); }
}
