#include "vc.h"
#include "ref.h"
#include <algorithm>
#include <numeric>
#include "cmmcore/nurbs.h"
using namespace cmmcore;
// callers of the span search and of the basis functions see their contracts (C01, C02)
static struct { const std::vector<double> *U; int k, p, n; double u; double B[CMMCORE_DEG_STACK_SIZE]; } gh;
extern "C" int span_contract(int n, int p, double u, const std::vector<double> *U, bool) {
    vc_check(U == gh.U && n == gh.n && p == gh.p && u == gh.u, "callee: the span is searched in the knot vector of the curve");
    return gh.k;
}
extern "C" void basis_contract(int k, double u, int p, const std::vector<double> *U, std::array<double, CMMCORE_DEG_STACK_SIZE> *N) {
    vc_check(U == gh.U && k == gh.k && p == gh.p && u == gh.u, "callee: the basis functions are those of the span of the parameter");
    for (int i = 0; i <= p; ++i) (*N)[i] = gh.B[i];
}
// rational curve point = sum N_i w_i P_i / sum N_i w_i
static void rational(bool end, bool cls) {
    const int p = (int)vc_enum("p", 1, CMMCORE_MAX_DEGREE);
    const int n = (int)vc_int("n", p, 100000);
    std::vector<double> U;
    vc::reals(U, n + p + 2, "U", -8, 8, vc::SORTED);
    const int k = end ? n : (int)vc_int("k", p, n);            // the span that contains u
    double u = vc_real("u", -8, 8);
    if (!VC_SYM) u = end ? U[n + 1] : U[k] + (U[k + 1] - U[k]) * fabs(u) / 9;
    vc_assume(U[k] <= u);
    if (end) { vc_assume(U[n] < U[n + 1]); vc_assume(u == U[n + 1]); }
    else vc_assume(u < U[k + 1]);
    gh = {&U, k, p, n, u, {}};
    std::vector<vec4> P;
    vc::reals(P, n + 1, "P", -8, 8);
    const double tiny = vc_int("tiny", 0, 7) == 7 ? 0x1p-44 : 1;     // natively: weights of any magnitude
    for (int i = 0; i <= p; ++i) {
        if (!VC_SYM) P[k - p + i].w = (fabs(P[k - p + i].w) + 0.5) * tiny;
        vc_assume(P[k - p + i].w > 0);
    }
    vec3 r(0, 0, 0);
    double B[10];
    if (cls && VC_SYM) for (int i = 0; i <= p; ++i) { B[i] = gh.B[i] = vc_real("B", 0, 1); vc_assume(B[i] >= 0); }
    else ref::basis(U, k, p, u, B);
    vec3 r2(0, 0, 0), r3(0, 0, 0);
    if (cls) {
        double ws = 0;
        for (int i = 0; i <= p; ++i) ws += B[i] * P[k - p + i].w;
        vc_assume(ws > 0);
        NURBSCurve &c = *new NURBSCurve;
        c.control_points.swap(P); c.knots.swap(U); c._degree = p; c._periodic = vc_int("periodic", 0, 1);
        gh.U = &c.knots;
        r = vec3(1, 2, 3);
        c.evaluate(u, r); r2 = c(u); c(u, r3);
        c.control_points.swap(P);
    } else curve_point(n, p, U, P, u, r, vc_int("periodic", 0, 1));
    double x = 0, y = 0, z = 0, w = 0;
    for (int i = 0; i <= p; ++i) {
        const vec4 &c = P[k - p + i];
        w += B[i] * c.w; x += B[i] * c.w * c.x; y += B[i] * c.w * c.y; z += B[i] * c.w * c.z;
    }
    vc_check_eq(r.x, x / w, "x");
    vc_check_eq(r.y, y / w, "y");
    vc_check_eq(r.z, z / w, "z");
    if (cls) for (int c = 0; c < 3; ++c) { vc_check_eq(r2[c], r[c], "call operator"); vc_check_eq(r3[c], r[c], "call operator with result"); }
}
VC_HARNESS(curve_point_rational) { rational(false, false); }
VC_HARNESS(curve_point_end) { rational(true, false); }
VC_HARNESS(curve_evaluate) { rational(false, true); }
VC_HARNESS(curve_evaluate_end) { rational(true, true); }
// an evaluated point lies in every box that holds the control points: r - lo = (sum N_i w_i (P_i - lo)) / (sum N_i w_i) >= 0
VC_HARNESS(curve_in_box) {
    const int p = (int)vc_enum("p", 1, CMMCORE_MAX_DEGREE);
    const int n = (int)vc_int("n", p, VC_SYM ? 100000 : 20), k = (int)vc_int("k", p, n);
    NURBSCurve &c = *new NURBSCurve;
    vc::reals(c.knots, n + p + 2, "U", -8, 8, vc::SORTED);
    double u = vc_real("u", -8, 8), B[10], ws = 0;
    if (!VC_SYM) u = c.knots[k] + (c.knots[k + 1] - c.knots[k]) * fabs(u) / 9;
    vc_assume(c.knots[k] <= u); vc_assume(u < c.knots[k + 1]);
    gh = {&c.knots, k, p, n, u, {}};
    double lo[4], hi[4];
    for (int d = 0; d < 4; ++d) { lo[d] = vc_real("lo", -8, 0); hi[d] = vc_real("hi", 0, 8); }
    if (!VC_SYM) { lo[3] = 0.5; hi[3] = 4; }
    vc_sym_vec_in(&c.control_points, n + 1, 4, "P", lo, hi);
    vc_assume(lo[3] > 0);
    if (VC_SYM) for (int i = 0; i <= p; ++i) { B[i] = gh.B[i] = vc_real("B", 0, 1); vc_assume(B[i] >= 0); }
    else ref::basis(c.knots, k, p, u, B);
    c._degree = p;
    for (int i = 0; i <= p; ++i) ws += B[i] * c.control_points[k - p + i].w;
    vc_assume(ws > 0);
    vec3 r(1, 2, 3);
    c.evaluate(u, r);
    for (int d = 0; d < 3; ++d) {
        double a = 0, b = 0;
        for (int i = 0; i <= p; ++i) { const vec4 &q = c.control_points[k - p + i]; a += B[i] * q.w * (q[d] - lo[d]); b += B[i] * q.w * (hi[d] - q[d]); }
        vc_check_eq(r[d] - lo[d], a / ws, "an evaluated point is inside"); vc_check_eq(hi[d] - r[d], b / ws, "an evaluated point is inside");
        vc_check_le(0, a, "an evaluated point is inside"); vc_check_le(0, b, "an evaluated point is inside");
    }
}
