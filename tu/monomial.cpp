#include "vc.h"
#include <algorithm>
#include <numeric>
#include "cmmcore/monomial.h"
using namespace cmmcore;
static long bin(long n, long k) { long r = 1; for (long i = 1; i <= k; ++i) r = r * (n - i + 1) / i; return k < 0 || k > n ? 0 : r; }
static Tensor2D<vec3> grid(long n, long m, const char *name) {
    Tensor2D<vec3> g(n);
    for (auto &r : g) vc::reals(r, m, name);
    return g;
}
static void eq(const vec3 &a, const vec3 &b, double m, const char *l) { for (int d = 0; d < 3; ++d) vc::close(a[d], b[d], m, l); }
VC_HARNESS(binomials) {
    const long n = vc_enum("n", 0, 30);
    for (long k = 0; k <= 30; ++k) vc_check(binomial_coefficient(n, k) == bin(n, k), "binomial coefficient");
}
// the matrix from Bezier points to monomial coefficients: sum_k P_k B_k(t) = sum_j t^j sum_k M(j, k) P_k
VC_HARNESS(bezier_matrix) {
    const long n = vc_enum("n", 0, 8);
    MatrixD M = bpmat(n);
    const double t = vc_real("t", -2, 2);
    for (long k = 0; k <= n; ++k) {
        double a = 0, b = bin(n, k), tj = 1;
        for (long j = 0; j <= n; ++j, tj *= t) a += M(j, k) * tj;
        for (long i = 0; i < n; ++i) b *= i < k ? t : 1 - t;
        vc::close(a, b, 1e6, "column of the matrix is the Bernstein polynomial");
    }
}
// coefficient (i, j) of the polynomial sum_kl P_kl B_k(u) B_l(v)
static vec3 coefficient(const Tensor2D<vec3> &P, long i, long j) {
    const long p = P.size() - 1, q = P[0].size() - 1;
    vec3 r(0, 0, 0);
    for (long k = 0; k <= i; ++k) for (long l = 0; l <= j; ++l)
        r = r + P[k][l] * double(((i + j + k + l) % 2 ? -1 : 1) * bin(p, i) * bin(i, k) * bin(q, j) * bin(j, l));
    return r;
}
static NURBSSurface &surface(const Tensor2D<vec3> &P) {
    NURBSSurface &s = *new NURBSSurface;
    s._size = {(long unsigned)P.size(), (long unsigned)P[0].size()}; s._degree = {(int)P.size() - 1, (int)P[0].size() - 1};
    s._control_points.resize(P.size());
    for (size_t i = 0; i < P.size(); ++i) { s._control_points[i].resize(P[i].size()); for (size_t j = 0; j < P[i].size(); ++j) s._control_points[i][j] = vec4(P[i][j].x, P[i][j].y, P[i][j].z, 1); }
    return s;
}
VC_HARNESS(monomial_of_bezier) {
    const long p = vc_enum("p", 1, 8), q = vc_enum("q", 1, 8);
    auto &P = *new Tensor2D<vec3>(grid(p + 1, q + 1, "P"));
    auto &m = *new Monomial2D(surface(P));
    vc_check(m.n == p + 1 && m.m == q + 1 && (long)m.coefficients.size() == p + 1, "size");
    for (long i = 0; i <= p; ++i) {
        vc_check((long)m.coefficients[i].size() == q + 1, "size");
        for (long j = 0; j <= q; ++j) eq(m.coefficients[i][j], coefficient(P, i, j), 1e6, "coefficient of the surface polynomial");
    }
}
VC_HARNESS(bezier_of_monomial) {
    const long p = vc_enum("p", 1, 8), q = vc_enum("q", 1, 8), how = vc_enum("how", 0, 4);
    auto &C = *new Tensor2D<vec3>(grid(p + 1, q + 1, "C"));
    auto &m = *new Monomial2D;
    auto &s = *new NURBSSurface;
    if (how == 0) m.set(*new Tensor2D<vec3>(C));
    if (how == 1) m = *new Monomial2D(C);
    if (how == 2) m = *new Monomial2D(p + 1, q + 1, C);
    if (how == 3) { Monomial2D &o = *new Monomial2D(p + 1, q + 1); o.coefficients = C; m = *new Monomial2D(o); }
    if (how == 4) {   // the surface held something else before
        m.set(*new Tensor2D<vec3>(C));
        s._control_points.resize(1); s._control_points[0].resize(1); s._control_points[0][0] = vec4(1, 2, 3, 4);
    }
    m.to_bezier(s);
    vc_check(s._degree[0] == p && s._degree[1] == q && (long)s._size[0] == p + 1 && (long)s._size[1] == q + 1, "degree and size");
    vc_check((long)s._control_points.size() == p + 1, "degree and size");
    Tensor2D<vec3> P(p + 1);
    for (long i = 0; i <= p; ++i) {
        vc_check((long)s._control_points[i].size() == q + 1, "degree and size");
        for (long j = 0; j <= q; ++j) { const vec4 &c = s._control_points[i][j]; P[i].push_back(vec3(c.x, c.y, c.z)); vc_check_eq(c.w, 1, "weight"); }
    }
    for (long i = 0; i <= p; ++i) for (long j = 0; j <= q; ++j) eq(coefficient(P, i, j), C[i][j], 1e6, "the Bezier surface is the polynomial");
    vc_check((long)s._knots_u.size() == 2 * p + 2 && (long)s._knots_v.size() == 2 * q + 2, "knots");
    for (long i = 0; i < 2 * p + 2; ++i) vc_check_eq(s._knots_u[i], i > p, "knots");
    for (long i = 0; i < 2 * q + 2; ++i) vc_check_eq(s._knots_v[i], i > q, "knots");
    for (int d = 0; d < 2; ++d) { vc_check_eq(s._interval[d][0], 0, "domain"); vc_check_eq(s._interval[d][1], 1, "domain"); }
}
static vec3 value(const Tensor2D<vec3> &C, double u, double v, int du = 0, int dv = 0) {
    vec3 r(0, 0, 0);
    double ui = 1;
    for (size_t i = du; i < C.size(); ++i, ui *= u) {
        double x = ui * (du ? i : 1);
        for (size_t j = dv; j < C[i].size(); ++j, x *= v) r = r + C[i][j] * (x * (dv ? j : 1));
    }
    return r;
}
VC_HARNESS(monomial_derivative) {
    const long p = vc_enum("p", 1, 8), q = vc_enum("q", 1, 8), dir = vc_enum("dir", 0, 1), used = vc_enum("used", 0, 2);
    auto &C = *new Tensor2D<vec3>(grid(p + 1, q + 1, "C"));
    auto &m = *new Monomial2D(C);
    auto &r = *new Monomial2D;
    const SurfaceParameter w = dir ? SurfaceParameter::V : SurfaceParameter::U;
    if (used == 0) m.computePartialDerivative(w, r);
    if (used == 1) { Monomial2D &o = *new Monomial2D(2, 2); o.computePartialDerivative(w, r); m.computePartialDerivative(w, r); }
    if (used == 2) { r.coefficients = Tensor2D<vec3>(1, {vec3(7, 7, 7)}); compute_partial_derivative(C, w, r.coefficients); r.n = r.coefficients.size(); r.m = r.coefficients[0].size(); }
    vc_check(r.n == p + (dir ? 1 : 0) && r.m == q + (dir ? 0 : 1) && (long)r.coefficients.size() == r.n, "size");
    for (long i = 0; i < r.n; ++i) {
        vc_check((long)r.coefficients[i].size() == r.m, "size");
        for (long j = 0; j < r.m; ++j) eq(r.coefficients[i][j], C[i + !dir][j + dir] * double(dir ? j + 1 : i + 1), 1, "coefficient of the derivative");
    }
}
// the normal polynomial is the cross product of the derivatives at every parameter
VC_HARNESS(monomial_normal) {
    const long p = vc_enum("p", 1, 8), q = vc_enum("q", 1, 8);
    auto &C = *new Tensor2D<vec3>(grid(p + 1, q + 1, "C"));
    auto &m = *new Monomial2D(C);
    auto &r = *new Monomial2D;
    if (vc_enum("used", 0, 1)) {   // the result held something else before
        Tensor2D<vec3> du, dv;
        compute_partial_derivative(C, SurfaceParameter::U, du); compute_partial_derivative(C, SurfaceParameter::V, dv);
        r.coefficients = Tensor2D<vec3>(1, {vec3(7, 7, 7)});
        cross(du, dv, r.coefficients);
        r.n = r.coefficients.size(); r.m = r.coefficients[0].size();
    } else m.computeNormal(r);
    vc_check(r.n == 2 * p && r.m == 2 * q && (long)r.coefficients.size() == r.n, "size");
    for (long i = 0; i < r.n; ++i) vc_check((long)r.coefficients[i].size() == r.m, "size");
    const double u = vc_real("u", -1, 1), v = vc_real("v", -1, 1);
    const vec3 a = value(C, u, v, 1, 0), b = value(C, u, v, 0, 1), c(a.y * b.z - a.z * b.y, a.z * b.x - a.x * b.z, a.x * b.y - a.y * b.x);
    eq(value(r.coefficients, u, v), c, 1e6, "normal is the cross product of the derivatives");
}
