#include "vc.h"
#include <vector>
#include "cmmcore/plane.h"
using namespace cmmcore;
static vec3 v3(const char *n) { double x = vc_real(n, -8, 8), y = vc_real(n, -8, 8), z = vc_real(n, -8, 8); return vec3(x, y, z); }
static double at(const plane &p, const vec3 &q) { return p.equation.x * q.x + p.equation.y * q.y + p.equation.z * q.z + p.equation.w; }
static double n2(const plane &p) { return p.equation.x * p.equation.x + p.equation.y * p.equation.y + p.equation.z * p.equation.z; }
// class invariant of every plane that is built: unit normal along the equation, origin on the plane
static void invariant(const plane &p) {
    vc_check_eq(p.normal.x * p.equation.y, p.normal.y * p.equation.x, "normal along the equation"); vc_check_eq(p.normal.y * p.equation.z, p.normal.z * p.equation.y, "normal along the equation");
    vc_check_eq(p.normal.x * p.equation.z, p.normal.z * p.equation.x, "normal along the equation");
    vc_check_le(0, p.normal.x * p.equation.x, "normal oriented like the equation"); vc_check_le(0, p.normal.y * p.equation.y, "normal oriented like the equation"); vc_check_le(0, p.normal.z * p.equation.z, "normal oriented like the equation");
    vc_check_eq(p.normal.x * p.normal.x + p.normal.y * p.normal.y + p.normal.z * p.normal.z, 1, "unit normal");
    vc_check_eq(at(p, p.origin), 0, "the origin lies on the plane");
}
VC_HARNESS(plane_from_coefficients) {
    double a = vc_real("a", -8, 8), b = vc_real("b", -8, 8), c = vc_real("c", -8, 8), d = vc_real("d", -8, 8);
    vc_assume(a * a + b * b + c * c > 0.01);
    plane p(a, b, c, d);
    vc_check_eq(p.equation.x, a, "coefficients"); vc_check_eq(p.equation.y, b, "coefficients"); vc_check_eq(p.equation.z, c, "coefficients"); vc_check_eq(p.equation.w, d, "coefficients");
    invariant(p);
}
VC_HARNESS(plane_from_origin_normal) {
    vec3 n = v3("n"), o = v3("o");
    vc_assume(n.sqLength() > 0.01);
    plane p(o, n);
    vc_check_eq(at(p, o), 0, "the given origin lies on the plane");
    vc_check_eq(p.origin.x, o.x, "origin is kept"); vc_check_eq(p.origin.y, o.y, "origin is kept"); vc_check_eq(p.origin.z, o.z, "origin is kept");
    vec3 c = n.cross(p.normal);
    vc_check_eq(c.x, 0, "normal is kept"); vc_check_eq(c.y, 0, "normal is kept"); vc_check_eq(c.z, 0, "normal is kept");
    invariant(p);
    plane q(n);
    vc_check_eq(at(q, vec3(0, 0, 0)), 0, "a plane given by its normal passes through zero");
    invariant(q);
}
VC_HARNESS(plane_from_points) {
    vec3 a = v3("a"), b = v3("b"), c = v3("c");
    vec3 n = (b - a).cross(c - a);
    vc_assume(n.sqLength() > 0.01);
    plane p(std::tuple<vec3, vec3, vec3>(a, b, c));
    vc_check_eq(at(p, a), 0, "passes through the points"); vc_check_eq(at(p, b), 0, "passes through the points"); vc_check_eq(at(p, c), 0, "passes through the points");
    vec4 e; plane_eq_from_pts(a, b, c, e);
    vc_check_eq(e.x, n.x, "equation is the normal of the triangle"); vc_check_eq(e.y, n.y, "equation is the normal of the triangle"); vc_check_eq(e.z, n.z, "equation is the normal of the triangle");
    vc_check_eq(planeSignedDistance(a, e), 0, "passes through the points");
    invariant(p);
}
static plane anyplane(const char *n) {
    double a = vc_real(n, -8, 8), b = vc_real(n, -8, 8), c = vc_real(n, -8, 8), d = vc_real(n, -8, 8);
    vc_assume(a * a + b * b + c * c > 0.01);
    return plane(a, b, c, d);
}
VC_HARNESS(plane_distance) {
    plane p = anyplane("p");
    vec3 q = v3("q");
    double d = p.signedDistance(q);
    // q - d*normal is the foot of q
    vc_check_eq(at(p, q - p.normal * d), 0, "moving back by the distance along the normal reaches the plane");
    vc_check_eq(planeSignedDistance(q, p.equation), at(p, q), "value of the equation");
    const long n = vc_int("n", 0, 100000);
    std::vector<vec3> pts; vc::reals(pts, n, "pts");
    std::vector<double> ds; ds.resize(vc_int("old", 0, 1000));
    p.signedDistance(pts, ds);
    vc_check((long)ds.size() == n, "one distance per point");
    VC_FORALL(i, 0, n) vc_check_eq(ds[i], p.signedDistance(pts[i]), "distances of an array");
}
VC_HARNESS(plane_ray) {
    plane p = anyplane("p");
    vec3 s = v3("s"), d = v3("d"), r(7, 7, 7);
    if (!VC_SYM && vc_int("par", 0, 3) == 0) { d = p.normal.cross(d); if (vc_int("in", 0, 1)) s = p.origin; }
    const double N = at(p, s), D = p.equation.x * d.x + p.equation.y * d.y + p.equation.z * d.z;
    if (!p.planeRayIntersection(s, d, r)) { vc_check_lt(fabs(D), 1e-8, "only a parallel ray misses"); vc_check_le(1e-8, fabs(N), "a ray in the plane does not miss"); }
    else if (fabs(D) >= 1e-8) {
        vc_check_eq(at(p, r), 0, "the point is on the plane");
        vec3 c = (r - s).cross(d);
        vc_check_eq(c.x, 0, "the point is on the line"); vc_check_eq(c.y, 0, "the point is on the line"); vc_check_eq(c.z, 0, "the point is on the line");
    } else { vc_check_eq(r.x, s.x, "a ray in the plane meets it at its start"); vc_check_eq(r.y, s.y, "a ray in the plane meets it at its start"); vc_check_eq(r.z, s.z, "a ray in the plane meets it at its start"); vc_check_lt(fabs(N), 1e-8, "a ray in the plane starts on it"); }
}
VC_HARNESS(plane_segment) {
    plane p = anyplane("p");
    vec3 s = v3("s"), e = v3("e"), r(7, 7, 7);
    const double A = at(p, s), B = at(p, e), eps = std::numeric_limits<double>::epsilon();
    vc_assume(fabs(A - B) > 1e-6);
    if (p.planeLineIntersection(s, e, r)) {
        vc_check_eq(at(p, r), 0, "the point is on the plane");
        const double t = A / (A - B);
        vc_check_eq(r.x, s.x + (e.x - s.x) * t, "the point is on the segment"); vc_check_eq(r.y, s.y + (e.y - s.y) * t, "the point is on the segment"); vc_check_eq(r.z, s.z + (e.z - s.z) * t, "the point is on the segment");
        vc_check_le(0, t, "between the ends"); vc_check_le(t, 1, "between the ends");
    } else vc_check_lt(0, A * B, "a miss means both ends are on the same side");
}
VC_HARNESS(plane_plane) {
    double u[3], v[3];
    for (int i = 0; i < 3; ++i) { u[i] = vc_real("u", -1, 1); v[i] = vc_real("v", -1, 1); }
    if (!VC_SYM) {
        double lu = sqrt(u[0] * u[0] + u[1] * u[1] + u[2] * u[2]), lv = sqrt(v[0] * v[0] + v[1] * v[1] + v[2] * v[2]);
        vc_assume(lu > 0.1 && lv > 0.1);
        for (int i = 0; i < 3; ++i) { u[i] /= lu; v[i] /= lv; }
        if (vc_int("par", 0, 3) == 0) for (int i = 0; i < 3; ++i) v[i] = -u[i];
    } else { vc_assume(u[0] * u[0] + u[1] * u[1] + u[2] * u[2] == 1); vc_assume(v[0] * v[0] + v[1] * v[1] + v[2] * v[2] == 1); }
    plane p, q;
    p.equation = vec4(u[0], u[1], u[2], vc_real("d1", -8, 8)); p.normal = vec3(u[0], u[1], u[2]);
    q.equation = vec4(v[0], v[1], v[2], vc_real("d2", -8, 8)); q.normal = vec3(v[0], v[1], v[2]);
    vec3 a(7, 7, 7), b(7, 7, 7), c = p.normal.cross(q.normal);
    if (p.planePlaneIntersection(q, a, b)) {
        vc_check_eq(at(p, a), 0, "first point is on both planes"); vc_check_eq(at(q, a), 0, "first point is on both planes");
        vc_check_eq(at(p, b), 0, "second point is on both planes"); vc_check_eq(at(q, b), 0, "second point is on both planes");
        vc_check_le(std::numeric_limits<double>::epsilon(), (b - a).sqLength(), "the two points differ");
    } else vc_check_le(c.sqLength(), std::numeric_limits<double>::epsilon(), "only parallel planes do not meet");
}
VC_HARNESS(plane_plane_plane) {
    plane p = anyplane("p"), q = anyplane("q"), r = anyplane("r");
    if (!VC_SYM && vc_int("par", 0, 3) == 0) { r = plane(p.equation.x + q.equation.x, p.equation.y + q.equation.y, p.equation.z + q.equation.z, 1); }
    vec3 x(7, 7, 7);
    const vec4 &a = p.equation, &b = q.equation, &c = r.equation;
    const double det = a.x * (b.y * c.z - b.z * c.y) - a.y * (b.x * c.z - b.z * c.x) + a.z * (b.x * c.y - b.y * c.x);
    if (p.planePlanePlaneIntersection(q, r, x)) {
        vc_check_eq(at(p, x), 0, "on the first plane"); vc_check_eq(at(q, x), 0, "on the second plane"); vc_check_eq(at(r, x), 0, "on the third plane");
    } else vc_check_le(fabs(det), 1e-8, "only dependent planes have no common point");
}
VC_HARNESS(points_coplanar) {
    const long n = vc_int("n", 4, 100000);
    std::vector<vec3> pts; vc::reals(pts, n, "pts");
    if (!VC_SYM && vc_int("flat", 0, 1)) for (auto &p : pts) p.z = 0;
    vec3 nn = (pts[1] - pts[0]).cross(pts[2] - pts[0]);
    vc_assume(nn.sqLength() > 0.01);
    const double eps = 1e-9;
    plane p(std::tuple<vec3, vec3, vec3>(pts[0], pts[1], pts[2]));
    if (isPtsCoplanar(pts, eps)) { VC_FORALL(i, 3, n) vc_check_lt(fabs(p.signedDistance(pts[i])), eps, "accepted points lie on the plane of the first three"); }
    else {
        if (VC_SYM) { }
        else { bool far = false; for (auto &x : pts) far |= fabs(p.signedDistance(x)) > eps / 2; vc_check(far, "refused points do not all lie on a plane"); }
    }
}
VC_HARNESS(frame_round_trip) {
    vec3 o = v3("o"), x(1, 0, 0), y(0, 1, 0);
    if (!VC_SYM) { // a rotation
        double q[4], s = 0; for (double &c : q) { c = vc_real("q", -1, 1); s += c * c; } vc_assume(s > 0.1); s = 1 / sqrt(s); for (double &c : q) c *= s;
        x.set(1 - 2 * (q[2] * q[2] + q[3] * q[3]), 2 * (q[1] * q[2] + q[0] * q[3]), 2 * (q[1] * q[3] - q[0] * q[2]));
        y.set(2 * (q[1] * q[2] - q[0] * q[3]), 1 - 2 * (q[1] * q[1] + q[3] * q[3]), 2 * (q[2] * q[3] + q[0] * q[1]));
    } else {
        x = v3("x"); y = v3("y");
        vc_assume(x.sqLength() == 1); vc_assume(y.sqLength() == 1); vc_assume(x.dot(y) == 0);
    }
    double u = vc_real("u", -8, 8), v = vc_real("v", -8, 8);
    cplane f(o, x, y);
    vec3 p, uvh;
    f.evaluate(u, v, p);
    vc_check_eq(p.x, o.x + u * x.x + v * y.x, "point of the frame"); vc_check_eq(p.y, o.y + u * x.y + v * y.y, "point of the frame"); vc_check_eq(p.z, o.z + u * x.z + v * y.z, "point of the frame");
    f.evaluateInv(p, uvh);
    vc_check_eq(uvh.x, u, "first coordinate comes back"); vc_check_eq(uvh.y, v, "second coordinate comes back"); vc_check_eq(uvh.z, 0, "no height");
    vc_check_eq(f.signedDistance(p), 0, "points of the frame are on its plane");
}
