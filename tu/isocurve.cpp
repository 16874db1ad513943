#include "vc.h"
#include "ref.h"
#include <algorithm>
#include <numeric>
#include <new>
#include "cmmcore/nurbs.h"
#include "cmmcore/boundary_intersection.h"
using namespace cmmcore;
static const long MAXN = VC_SYM ? 100000 : 12;
// the fixed direction: contracts of the span search and of the basis functions (C01, C02)
static struct { const std::vector<double> *U; int k, p, n; double u; double B[CMMCORE_DEG_STACK_SIZE]; } gh;
extern "C" int span_contract(int n, int p, double u, const std::vector<double> *U, bool) {
    vc_check(U == gh.U && n == gh.n && p == gh.p && u == gh.u, "callee: the span is searched in the right knot vector");
    return gh.k;
}
extern "C" void basis_contract(int k, double u, int p, const std::vector<double> *U, std::array<double, CMMCORE_DEG_STACK_SIZE> *N) {
    vc_check(U == gh.U && k == gh.k && p == gh.p && u == gh.u, "callee: the basis functions are those of the right direction");
    for (int i = 0; i <= p; ++i) (*N)[i] = gh.B[i];
}
extern "C" void interval_contract(NURBSCurve *c) {
    const long m = c->knots.size();
    vc_check(m > 0, "callee: there are knots");
    VC_FORALL(i, 0, m - 1) vc_check_le(c->knots[i], c->knots[i + 1], "callee: the knots are sorted");
    c->_interval[0] = c->knots[0]; c->_interval[1] = c->knots[m - 1];
}
extern "C" void knots_contract(NURBSCurve *c) {       // C09: one knot per point and degree, and one more; some sorted values
    vc::reals(c->knots, (long)c->control_points.size() + c->_degree + 1, "generated", -8, 8, vc::SORTED);
    c->_interval[0] = c->knots[0]; c->_interval[1] = c->knots[c->knots.size() - 1];
}
static long boxed;
extern "C" void box_recorded(NURBSCurve *) { ++boxed; }     // the box of the control points (C15)
// fixing one parameter leaves the curve of the other: its homogeneous control points are those of the surface, combined
// with the basis functions of the fixed direction; degree, knots and domain are those of the other direction
VC_HARNESS(isocurve) {
    const int d = (int)vc_enum("dir", 0, 1), member = (int)vc_enum("member", 0, 1), p = (int)vc_enum("p", 1, CMMCORE_MAX_DEGREE), q = (int)vc_int("q", 1, 8);
    const int n = (int)vc_int("n", p, MAXN), m = (int)vc_int("m", q, MAXN);
    NURBSSurface &s = *new NURBSSurface;
    s._degree[d] = p; s._degree[1 - d] = q; s._size[d] = n + 1; s._size[1 - d] = m + 1;
    vc::rows(s._control_points, s._size[0], s._size[1], "P");
    std::vector<double> &U = d ? s._knots_v : s._knots_u, &V = d ? s._knots_u : s._knots_v;
    vc::reals(U, n + p + 2, "U", -8, 8, vc::SORTED); vc::reals(V, m + q + 2, "V", -8, 8, vc::SORTED);
    const int k = (int)vc_int("k", p, n);
    double u = vc_real("u", -8, 8);
    if (!VC_SYM) u = U[k] + (U[k + 1] - U[k]) * fabs(u) / 9;
    vc_assume(U[k] < U[k + 1]); vc_assume(U[k] <= u); vc_assume(k == n ? u <= U[k + 1] : u < U[k + 1]);
    gh.U = &U; gh.k = k; gh.p = p; gh.n = n; gh.u = u;
    double sum = 0;
    if (VC_SYM) {
        for (int i = 0; i <= p; ++i) { gh.B[i] = vc_real("B", 0, 1); vc_assume(gh.B[i] >= 0); sum += gh.B[i]; }
        vc_assume(sum == 1);
    } else ref::basis(U, k, p, u, gh.B);
    const double least = vc_real("least", 0.25, 0.5);
    vc_assume(least > 0);
    if (VC_SYM) vc_row_weights(&s._control_points, least, 1e9);
    else for (auto &r : s._control_points) for (auto &c : r) c.w = fabs(c.w) + least;
    s._interval[d][0] = U[0]; s._interval[d][1] = U[n + p + 1]; s._interval[1 - d][0] = V[0]; s._interval[1 - d][1] = V[m + q + 1];
    boxed = 0;
    const auto D = d ? SurfaceParameter::V : SurfaceParameter::U;
    NURBSCurve &c = *new NURBSCurve(member ? s.extract_isocurve(u, D) : extract_isocurve(s, u, D));
    vc_check(c._degree == q && (long)c.control_points.size() == m + 1 && (long)c.knots.size() == m + q + 2, "degree and sizes of the other direction");
    VC_FORALL(j, 0, m + q + 2) vc_check_eq(c.knots[j], V[j], "knots of the other direction");
    vc_check_eq(c._interval[0], V[0], "domain of the other direction"); vc_check_eq(c._interval[1], V[m + q + 1], "domain of the other direction");
    VC_FORALL(i, 0, m + 1) {
        double h[4] = {0, 0, 0, 0};
        for (int j = 0; j <= p; ++j) for (int e = 0; e < 4; ++e)
            h[e] += gh.B[j] * (d ? s._control_points[i][k - p + j] : s._control_points[k - p + j][i])[e];
        vc_check_eq(c.control_points[i].w, h[3], "weights combine");
        for (int e = 0; e < 3; ++e) vc_check_eq(c.control_points[i][e] * h[3], h[e], "homogeneous points combine");
    }
    if (!VC_SYM) {
        boxed = 1;
        for (int e = 0; e < 3; ++e) {
            double lo = c.control_points[0][e], hi = lo;
            for (auto &x : c.control_points) { lo = std::min(lo, x[e]); hi = std::max(hi, x[e]); }
            if (c._aabb.min[e] != lo || c._aabb.max[e] != hi) boxed = 0;
        }
    }
    vc_check(boxed > 0, "the box is refreshed");
}
// the four boundaries are the isocurves at the ends of the domain
static const NURBSSurface *asked;
static void answer(NURBSCurve *r, const NURBSSurface *s, double t, SurfaceParameter d) {
    vc_check(s == asked, "callee: the isocurve is one of this surface");
    new (r) NURBSCurve;
    r->_degree = d == SurfaceParameter::V; r->knots.push_back(t);
}
extern "C" void iso_member(NURBSCurve *r, const NURBSSurface *s, double t, SurfaceParameter d) { answer(r, s, t, d); }
extern "C" void iso_free(NURBSCurve *r, const NURBSSurface *s, double t, SurfaceParameter d) { answer(r, s, t, d); }
VC_HARNESS(boundaries) {
    const int member = (int)vc_enum("member", 0, 1);
    NURBSSurface &s = *new NURBSSurface;
    asked = &s;
    for (int d = 0; d < 2; ++d) for (int e = 0; e < 2; ++e) s._interval[d][e] = vc_real("i", e, e + 0.5);
    auto &r = *new std::array<NURBSCurve, 4>;
    if (!VC_SYM) {
        const long n = vc_int("n", 2, 5), m = vc_int("m", 2, 5);
        vc::rows(s._control_points, n, m, "P");
        for (auto &l : s._control_points) for (auto &c : l) c.w = fabs(c.w) + 0.5;
        s._size = {(size_t)n, (size_t)m}; s._degree = {1, 1};
        s.generate_knots_u(); s.generate_knots_v();
    }
    if (member) s.extract_surface_boundaries(r); else extract_surface_boundaries(s, r);
    for (int i = 0; i < 4; ++i) if (!VC_SYM) {
        vc_check(r[i]._degree == 1, "the first two boundaries fix u, the others fix v");
        const NURBSCurve c = s.extract_isocurve(s._interval[i / 2][i % 2], i / 2 ? SurfaceParameter::V : SurfaceParameter::U);
        vc_check(r[i].control_points.size() == c.control_points.size() && r[i].knots.size() == c.knots.size(), "one isocurve each");
        for (size_t j = 0; j < c.control_points.size(); ++j) for (int e = 0; e < 4; ++e) vc_check_eq(r[i].control_points[j][e], c.control_points[j][e], "boundaries are at the ends of the domain");
        for (size_t j = 0; j < c.knots.size(); ++j) vc_check_eq(r[i].knots[j], c.knots[j], "boundaries are at the ends of the domain");
    } else {
        vc_check(r[i]._degree == i / 2, "the first two boundaries fix u, the others fix v");
        vc_check(r[i].knots.size() == 1, "one isocurve each"); vc_check_eq(r[i].knots[0], s._interval[i / 2][i % 2], "boundaries are at the ends of the domain");
    }
}
