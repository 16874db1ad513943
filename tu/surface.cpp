#include "vc.h"
#include "ref.h"
#include <algorithm>
#include <numeric>
#include "cmmcore/nurbs.h"
using namespace cmmcore;
// callers see the contracts of the span search and of the basis functions (C01, C02): the span that holds the
// parameter, and the values of the basis functions there
static struct { const std::vector<double> *U; int k, p, n; double u; double B[CMMCORE_DEG_STACK_SIZE]; } gh[2];
extern "C" int span_contract(int n, int p, double u, const std::vector<double> *U, bool) {
    const int d = U == gh[0].U ? 0 : 1;
    vc_check(U == gh[d].U && n == gh[d].n && p == gh[d].p && u == gh[d].u, "callee: the span is searched in the right knot vector");
    return gh[d].k;
}
extern "C" void basis_contract(int k, double u, int p, const std::vector<double> *U, std::array<double, CMMCORE_DEG_STACK_SIZE> *N) {
    const int d = U == gh[0].U ? 0 : 1;
    vc_check(U == gh[d].U && k == gh[d].k && p == gh[d].p && u == gh[d].u, "callee: the basis functions are those of the right direction");
    for (int i = 0; i <= p; ++i) (*N)[i] = gh[d].B[i];
}
static void dir(int d, const char *nm, int p, int n, std::vector<double> &U) {
    vc::reals(U, n + p + 2, nm, -8, 8, vc::SORTED);
    const int k = (int)vc_int("k", p, n);
    double u = vc_real("u", -8, 8);
    if (!VC_SYM) u = U[k] + (U[k + 1] - U[k]) * fabs(u) / 9;
    vc_assume(U[k] <= u); vc_assume(k == n ? u <= U[k + 1] : u < U[k + 1]);
    gh[d].U = &U; gh[d].k = k; gh[d].p = p; gh[d].n = n; gh[d].u = u;
    if (VC_SYM) for (int i = 0; i <= p; ++i) { gh[d].B[i] = vc_real("B", 0, 1); vc_assume(gh[d].B[i] >= 0); }
    else ref::basis(U, k, p, u, gh[d].B);
}
VC_HARNESS(surface_evaluate) {
    const int p = (int)vc_enum("p", 1, CMMCORE_MAX_DEGREE), q = (int)vc_enum("q", 1, CMMCORE_MAX_DEGREE);
    const int n = (int)vc_int("n", p, 100000), m = (int)vc_int("m", q, 100000);
    NURBSSurface &s = *new NURBSSurface;   // not destroyed: its rows belong to the verifier
    s._degree = {p, q}; s._size = {(size_t)n + 1, (size_t)m + 1};
    vc::rows(s._control_points, n + 1, m + 1, "P");
    dir(0, "U", p, n, s._knots_u); dir(1, "V", q, m, s._knots_v);
    const double tiny = vc_int("tiny", 0, 7) == 7 ? 0x1p-44 : 1;     // natively: weights of any magnitude
    double x = 0, y = 0, z = 0, w = 0;
    for (int i = 0; i <= p; ++i) for (int j = 0; j <= q; ++j) {
        vec4 &c = s._control_points[gh[0].k - p + i][gh[1].k - q + j];
        if (!VC_SYM) { c.w = (fabs(c.w) + 0.5) * tiny; c.x *= tiny; c.y *= tiny; c.z *= tiny; }
        const double b = gh[0].B[i] * gh[1].B[j];
        x += b * c.x; y += b * c.y; z += b * c.z; w += b * c.w;
    }
    vc_assume(w > 0);
    vec3 r(0, 0, 0);
    s.evaluate(gh[0].u, gh[1].u, r);
    vc_check_eq(r.x, x / w, "x"); vc_check_eq(r.y, y / w, "y"); vc_check_eq(r.z, z / w, "z");
}
// an evaluated point lies in every box that holds the (projected) control points
VC_HARNESS(surface_in_box) {
    const int p = (int)vc_enum("p", 1, CMMCORE_MAX_DEGREE), q = (int)vc_enum("q", 1, CMMCORE_MAX_DEGREE);
    const int n = (int)vc_int("n", p, VC_SYM ? 100000 : 20), m = (int)vc_int("m", q, VC_SYM ? 100000 : 20);
    NURBSSurface &s = *new NURBSSurface;
    s._degree = {p, q}; s._size = {(size_t)n + 1, (size_t)m + 1};
    vc::rows(s._control_points, n + 1, m + 1, "P");
    dir(0, "U", p, n, s._knots_u); dir(1, "V", q, m, s._knots_v);
    double lo[3], hi[3], w = 0, g[9][9][3][2], W[9][9];
    for (int d = 0; d < 3; ++d) { lo[d] = vc_real("lo", -8, 0); hi[d] = vc_real("hi", 0, 8); }
    for (int i = 0; i <= p; ++i) for (int j = 0; j <= q; ++j) {
        vec4 &c = s._control_points[gh[0].k - p + i][gh[1].k - q + j];
        double e[3];
        W[i][j] = vc_real("w", 0.5, 4); vc_assume(W[i][j] > 0);
        for (int d = 0; d < 3; ++d) {
            e[d] = vc_real("e", -8, 8);
            if (!VC_SYM) e[d] = e[d] < lo[d] ? lo[d] : e[d] > hi[d] ? hi[d] : e[d];
            vc_assume(lo[d] <= e[d]); vc_assume(e[d] <= hi[d]);
            g[i][j][d][0] = e[d] - lo[d]; g[i][j][d][1] = hi[d] - e[d];
        }
        c = vec4(e[0] * W[i][j], e[1] * W[i][j], e[2] * W[i][j], W[i][j]);
        w += gh[0].B[i] * gh[1].B[j] * W[i][j];
    }
    vc_assume(w > 0);
    vec3 r(0, 0, 0);
    s.evaluate(gh[0].u, gh[1].u, r);
    for (int d = 0; d < 3; ++d) {
        double a = 0, b = 0;
        for (int i = 0; i <= p; ++i) for (int j = 0; j <= q; ++j) {
            a += gh[0].B[i] * gh[1].B[j] * W[i][j] * g[i][j][d][0]; b += gh[0].B[i] * gh[1].B[j] * W[i][j] * g[i][j][d][1];
        }
        vc_check_eq(r[d] - lo[d], a / w, "an evaluated point is inside"); vc_check_eq(hi[d] - r[d], b / w, "an evaluated point is inside");
        vc_check_le(0, a, "an evaluated point is inside"); vc_check_le(0, b, "an evaluated point is inside");
    }
}
