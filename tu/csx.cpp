#include "vc.h"
#include <algorithm>
#include <numeric>
#include <cmath>
#include <array>
#include <cassert>
#include <cstdint>
#include <fstream>
#include <functional>
#include <iostream>
#include <memory>
#include <new>
#include <optional>
#include <queue>
#include <sstream>
#include <stack>
#include <stdexcept>
#include <string>
#include <tuple>
#include <unordered_map>
#include <unordered_set>
#include <vector>
#define private public
#include "cmmcore/csx.h"
#undef private
using namespace cmmcore;
// The curve and the surface are arbitrary functions; a piece is its interval (C07: a piece is the curve or the surface
// there) and a number, the only coordinate of its only control point.
typedef long I;
static double at(const char *n, double t) { return vc_uf1(n, t); }
static double on(const char *n, double u, double v) { return vc_uf2(n, u, v); }
static NURBSCurveSurfaceIntersector *self;
struct Domain { double t[2], u[2], v[2]; };
static Domain whole;
static double hit[3];                 // where Newton's method ended
static bool searched[4][2], asked[4][2], separate[4][2], halved;
static double cut[3];
static void curve_piece(NURBSCurve &c, double a, double b, double id) {
    c._degree = 1; c._interval[0] = a; c._interval[1] = b;
    c.control_points.push_back(vec4(id, 0, 0, 1));
}
static void surface_piece(NURBSSurface &s, double u0, double u1, double v0, double v1, double id) {
    s._size = {1, 1};
    s._interval[0][0] = u0; s._interval[0][1] = u1; s._interval[1][0] = v0; s._interval[1][1] = v1;
    s._control_points.push_back(std::vector<vec4>{vec4(id, 0, 0, 1)});
}
extern "C" void split_contract(std::pair<NURBSCurve, NURBSCurve> *ret, const NURBSCurve *c, double t, bool normalize) {
    vc_check(!normalize, "callee: pieces keep their parameters");
    if (t - c->_interval[0] <= 1e-12 || c->_interval[1] - t <= 1e-12) throw std::invalid_argument("Cannot split from the domain edge.");
    new (ret) std::pair<NURBSCurve, NURBSCurve>();
    curve_piece(ret->first, c->_interval[0], t, 0);
    curve_piece(ret->second, t, c->_interval[1], 1);
    cut[0] = t; halved = true;
}
extern "C" void subdivide_contract(std::array<NURBSSurface, 4> *ret, const NURBSSurface *s, double u, double v) {
    if (u <= s->_interval[0][0] || s->_interval[0][1] <= u || v <= s->_interval[1][0] || s->_interval[1][1] <= v) throw std::invalid_argument("edge");
    new (ret) std::array<NURBSSurface, 4>();
    for (int i = 0; i < 4; ++i)
        surface_piece((*ret)[i], i < 2 ? s->_interval[0][0] : u, i < 2 ? u : s->_interval[0][1], i % 2 ? v : s->_interval[1][0], i % 2 ? s->_interval[1][1] : v, i);
    cut[1] = u; cut[2] = v;
}
extern "C" void evaluate_curve(const NURBSCurve *, double t, vec3 *r) { r->x = at("cx", t); r->y = at("cy", t); r->z = at("cz", t); }
extern "C" void tangent_curve(const NURBSCurve *, double t, vec3 *r) { r->x = at("dx", t); r->y = at("dy", t); r->z = at("dz", t); }
extern "C" void evaluate_surface(const NURBSSurface *, double u, double v, vec3 *r) { r->x = on("sx", u, v); r->y = on("sy", u, v); r->z = on("sz", u, v); }
extern "C" void normal_surface(const NURBSSurface *, double u, double v, vec3 *r) { r->x = on("nx", u, v); r->y = on("ny", u, v); r->z = on("nz", u, v); }
extern "C" void newton_contract(Vector<3> *ret, const void *, const Vector<3> *, double, int) { for (int i = 0; i < 3; ++i) (*ret)[i] = hit[i]; }
extern "C" bool boxes_apart(const std::vector<vec3> *, const std::vector<vec3> *) { return (vc_int("answer", 0, 1) == 1); }
extern "C" bool gjk_contract(const std::vector<vec3> *, const std::vector<vec3> *, std::vector<vec3> *, vec3 *closest, double, size_t) {
    closest->x = vc_real("closest", -8, 8); closest->y = closest->z = 0;
    return false;
}
extern "C" bool separable_contract(const vec3 *, std::vector<vec3> *c, std::vector<vec3> *s) {
    const I k = (I)(*c)[0].x, i = (I)(*s)[0].x;
    asked[i][k] = true;
    separate[i][k] = (vc_int("answer", 0, 1) == 1);
    return separate[i][k];
}
extern "C" void intersect_contract(NURBSCurveSurfaceIntersector *x, const NURBSCurve *c, const NURBSSurface *s) {
    vc_check(x == self, "callee: the same search");
    const I k = (I)c->control_points[0].x, i = (I)s->_control_points[0][0].x;
    vc_check(halved && !searched[i][k], "callee: each pair of pieces once");
    searched[i][k] = true;
}
static void valid(const CSXInt &e, const Domain &d, double tol, bool curve, const NURBSCurve *c, const NURBSSurface *s) {
    const auto &q = std::get<2>(e);
    vc_check(d.t[0] <= q[0] && q[0] <= d.t[1] && d.u[0] <= q[1] && q[1] <= d.u[1] && d.v[0] <= q[2] && q[2] <= d.v[1], "parameters of the curve and of the surface");
    vec3 a, b, t, n;
    if (curve) { evaluate_curve(nullptr, q[0], &a); evaluate_surface(nullptr, q[1], q[2], &b); tangent_curve(nullptr, q[0], &t); normal_surface(nullptr, q[1], q[2], &n); }
    else { c->evaluate(q[0], a); s->evaluate(q[1], q[2], b); c->derivative(q[0], t); s->normal(q[1], q[2], n); }
    const vec3 p = std::get<1>(e), f = a - b;
    vc_check_eq(p.x, a.x, "point of the curve"); vc_check_eq(p.y, a.y, "point of the curve"); vc_check_eq(p.z, a.z, "point of the curve");
    vc_check(f.length() <= tol + (VC_SYM ? 0 : 1e-9), "within the tolerance of the surface");
    const double z = std::abs(t.x * n.x + t.y * n.y + t.z * n.z);
    if (VC_SYM || std::fabs(z - tol) > 1e-6) vc_check((std::get<0>(e) == CSXType::DEGENERATE) == (z < tol), "degenerate exactly when the curve runs along the surface");
}
VC_HARNESS(hits) {
    const double tol = vc_real("tol", 0.001, 0.01);
    vc_assume(tol > 0);
    if (!VC_SYM) {
        const I p = vc_int("p", 1, 3), n = vc_int("n", p + 1, 5);
        std::vector<vec4> P(n);
        for (I i = 0; i < n; ++i) P[i] = vec4(vc_real("x", -1, 1), vc_real("x", -1, 1), (i == 0 && vc_int("touch", 0, 2) == 0) ? 0 : (i % 2 ? 1 : -1) * vc_real("z", 0.25, 2), vc_real("w", 0.5, 2));
        const NURBSCurve c(P, (int)p, false);
        const double h = vc_int("curved", 0, 1) ? vc_real("h", 0.1, 0.5) : 0;
        const NURBSSurface s({{vec4(-1, -1, 0, 1), vec4(-1, 1, h, 1)}, {vec4(1, -1, 0, 1), vec4(1, 1, 0, 1)}}, {1, 1});
        CSXIntersections r;
        csx(c, s, r, tol);
        for (auto &e : r) valid(e, {{c._interval[0], c._interval[1]}, {s._interval[0][0], s._interval[0][1]}, {s._interval[1][0], s._interval[1][1]}}, tol, false, &c, &s);
        auto again = csx(c, s, tol);
        vc_check(again.size() == r.size(), "at most one hit per search of a pair of pieces");
        return;
    }
    const double ptol = vc_real("ptol", 1e-9, 1e-3);
    vc_assume(ptol >= 1e-11);
    Domain d;
    double *ends[3] = {d.t, d.u, d.v};
    for (int i = 0; i < 3; ++i) { ends[i][0] = vc_real("lo", -8, 8); ends[i][1] = vc_real("hi", -8, 8); vc_assume(ends[i][0] < ends[i][1]); hit[i] = vc_real("newton", -8, 8); }
    NURBSCurve C, c;
    NURBSSurface S, s;
    curve_piece(c, d.t[0], d.t[1], 0);
    surface_piece(s, d.u[0], d.u[1], d.v[0], d.v[1], 0);
    curve_piece(C, vc_real("C", -8, 8), vc_real("C", -8, 8), 0);
    surface_piece(S, vc_real("S", -8, 8), vc_real("S", -8, 8), vc_real("S", -8, 8), vc_real("S", -8, 8), 0);
    NURBSCurveSurfaceIntersector x(C, S, tol, ptol);
    self = &x;
    halved = false;
    for (int i = 0; i < 4; ++i) for (int k = 0; k < 2; ++k) searched[i][k] = asked[i][k] = separate[i][k] = false;
    x._curve_surface_intersect(c, s);
    const size_t n = x.intersections.size();
    vc_check(n <= 1, "at most one hit per search of a pair of pieces");
    if (n == 1) valid(x.intersections[0], d, tol, true, nullptr, nullptr);
    if (halved) for (int i = 0; i < 4; ++i) for (int k = 0; k < 2; ++k)
        vc_check(searched[i][k] != (asked[i][k] && separate[i][k]), "callee: every pair of pieces is searched unless found separate");
}
