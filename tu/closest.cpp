#include "vc.h"
#include <vector>
#include <algorithm>
#include <numeric>
#include "cmmcore/closest_point.h"
using namespace cmmcore;
static vec3 v3(const char *n) { double x = vc_real(n, -8, 8), y = vc_real(n, -8, 8), z = vc_real(n, -8, 8); return vec3(x, y, z); }
static double dt(const vec3 &a, const vec3 &b) { return a.x * b.x + a.y * b.y + a.z * b.z; }
static vec3 sub(const vec3 &a, const vec3 &b) { return vec3(a.x - b.x, a.y - b.y, a.z - b.z); }
static vec3 mad(const vec3 &a, const vec3 &d, double t) { return vec3(a.x + d.x * t, a.y + d.y * t, a.z + d.z * t); }
static void same(const vec3 &a, const vec3 &b, const char *l) { vc_check_eq(a.x, b.x, l); vc_check_eq(a.y, b.y, l); vc_check_eq(a.z, b.z, l); }
VC_HARNESS(closest_on_line) {
    vec3 p = v3("p"), s = v3("s"), d = v3("d");
    vc_assume(dt(d, d) > 1e-3);
    vec3 r = closestPointOnRay(p, s, d), r1;
    closestPointOnRay(p, s, d, r1);
    vec3 e(s.x + d.x, s.y + d.y, s.z + d.z), r2 = closestPointOnLine(p, s, e), r3;
    closestPointOnLine(p, s, e, r3);
    vc_check_eq(dt(sub(p, r), d), 0, "the offset is perpendicular to the line");
    same(mad(s, d, dt(sub(r, s), d) / dt(d, d)), r, "the result is on the line");
    same(r, r1, "all forms agree"); same(r, r2, "all forms agree"); same(r, r3, "all forms agree");
}
VC_HARNESS(closest_on_segment) {
    vec3 p = v3("p"), a = v3("a"), b = v3("b"), ab = sub(b, a);
    vc_assume(dt(ab, ab) > 1e-3);
    vec3 r = closestPointOnSegm(p, a, b), r1;
    closestPointOnSegm(p, a, b, r1);
    double t = dt(sub(r, a), ab) / dt(ab, ab);
    vc_check_le(0, t, "the result is on the segment"); vc_check_le(t, 1, "the result is on the segment");
    same(mad(a, ab, t), r, "the result is on the segment");
    vc_check_le(dt(sub(p, r), sub(a, r)), 0, "no point of the segment is closer"); vc_check_le(dt(sub(p, r), sub(b, r)), 0, "no point of the segment is closer");
    same(r, r1, "all forms agree");
}
VC_HARNESS(closest_on_segment_origin) {
    vec3 a = v3("a"), ab = v3("u"), b(a.x + ab.x, a.y + ab.y, a.z + ab.z);
    vc_quantity("A", dt(ab, ab)); vc_quantity("d", dt(a, ab)); vc_quantity("E", dt(a, a));
    vc_assume(dt(ab, ab) > 1e-3);
    vec3 r = closestPointOnSegm(a, b);
    double t = dt(sub(r, a), ab) / dt(ab, ab);
    vc_check_le(0, t, "the result is on the segment"); vc_check_le(t, 1, "the result is on the segment");
    same(mad(a, ab, t), r, "the result is on the segment");
    vc_check_le(0, dt(r, sub(a, r)), "no point of the segment is closer"); vc_check_le(0, dt(r, sub(b, r)), "no point of the segment is closer");
}
VC_HARNESS(closest_on_triangle_origin) {
    vec3 a = v3("a"), ab = v3("u"), ac = v3("w"), b(a.x + ab.x, a.y + ab.y, a.z + ab.z), c(a.x + ac.x, a.y + ac.y, a.z + ac.z);
    double A = dt(ab, ab), B = dt(ab, ac), C = dt(ac, ac), D = A * C - B * B;
    vc_quantity("A", A); vc_quantity("B", B); vc_quantity("C", C); vc_quantity("d1", dt(a, ab)); vc_quantity("d2", dt(a, ac)); vc_quantity("E", dt(a, a));
    vc_assume(A > 1e-2 && C > 1e-2 && D > 1e-2);
    vec3 r = closestPointOnTriangle(a, b, c), ar = sub(r, a);
    double e1 = dt(ar, ab), e2 = dt(ar, ac);
    double v = (C * e1 - B * e2) / D, w = (A * e2 - B * e1) / D;
    same(mad(mad(a, ab, v), ac, w), r, "the result is in the plane of the triangle");
    vc_check_le(0, v, "the result is in the triangle"); vc_check_le(0, w, "the result is in the triangle"); vc_check_le(v + w, 1, "the result is in the triangle");
    vc_check_le(0, dt(r, sub(a, r)), "no point of the triangle is closer"); vc_check_le(0, dt(r, sub(b, r)), "no point of the triangle is closer"); vc_check_le(0, dt(r, sub(c, r)), "no point of the triangle is closer");
}
// contract of the origin form in its callers: a function of the corners (its value is the subject of the contract above)
extern "C" void tri_contract(vec3 *r, const vec3 &a, const vec3 &b, const vec3 &c) {
    r->x = vc_uf9("tx", a.x, a.y, a.z, b.x, b.y, b.z, c.x, c.y, c.z); r->y = vc_uf9("ty", a.x, a.y, a.z, b.x, b.y, b.z, c.x, c.y, c.z); r->z = vc_uf9("tz", a.x, a.y, a.z, b.x, b.y, b.z, c.x, c.y, c.z);
}
VC_HARNESS(closest_on_triangle) {
    vec3 p = v3("p"), a = v3("a"), b = v3("b"), c = v3("c"), ab = sub(b, a), ac = sub(c, a);
    double A = dt(ab, ab), B = dt(ab, ac), C = dt(ac, ac), D = A * C - B * B;
    vc_assume(A > 1e-2 && C > 1e-2 && D > 1e-2);
    vec3 s = closestPointOnTriangle(sub(a, p), sub(b, p), sub(c, p)), r = closestPointOnTriangle(p, a, b, c), r1;
    closestPointOnTriangle(p, a, b, c, r1);
    vec3 t(s.x + p.x, s.y + p.y, s.z + p.z);
    same(r, t, "the query point is the origin of the search"); same(r, r1, "all forms agree");
}
