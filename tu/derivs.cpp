#include "vc.h"
#include "ref.h"
#include <algorithm>
#include <numeric>
#include "cmmcore/nurbs.h"
using namespace cmmcore;
// d-th derivative of N_{i,p} on the span k, by the defining recurrence
//   N'_{i,p} = p/(U_{i+p}-U_i) N_{i,p-1} - p/(U_{i+p+1}-U_{i+1}) N_{i+1,p-1}
static void dstep(const std::vector<double> &U, int k, int p, int d, double *D) {   // from D[0..p-d], the functions of degree p-d, to their combination D[0..p]
    for (int q = p - d + 1; q <= p; ++q) {
        double C[10];
        for (int r = 0; r <= q; ++r) {
            const int i = k - q + r;
            double v = 0;
            if (r > 0) v += q / (U[i + q] - U[i]) * D[r - 1];
            if (r < q) v -= q / (U[i + q + 1] - U[i + 1]) * D[r];
            C[r] = v;
        }
        for (int r = 0; r <= q; ++r) D[r] = C[r];
    }
}
static void dbasis(const std::vector<double> &U, int k, int p, double u, int d, double *D) {   // D[0..p]
    ref::basis(U, k, p - d, u, D);
    dstep(U, k, p, d, D);
}
// B[0..p-d]: the functions of degree p-d (in the proof arbitrary numbers, the claims being linear in them); D[0..p]: the d-th derivatives of those of degree p
static void both(const std::vector<double> &U, int k, int p, double u, int d, double *B, double *D) {
    ref::basis(U, k, p - d, u, B);
    for (int i = 0; i <= p - d; ++i) D[i] = B[i] = vc_gen(B[i]);
    dstep(U, k, p, d, D);
}
VC_HARNESS(basis_derivatives) {
    const int p = (int)vc_enum("p", 1, CMMCORE_MAX_DEGREE), d = (int)vc_enum("d", 0, p);
    const int k = (int)vc_int("k", p, 100000);
    std::vector<double> U;
    vc::reals(U, k + p + 1 + vc_int("tail", 0, 1000), "U", -8, 8, vc::SORTED);
    double u = vc_real("u", -8, 8);
    vc_assume(U[k] <= u); vc_assume(u <= U[k + 1]); vc_assume(U[k] < U[k + 1]);
    std::vector<std::array<double, CMMCORE_DEG_STACK_SIZE>> N;
    ders_basis_funs(k, u, p, d, U, N);
    vc_check((int)N.size() == d + 1, "one row per order");
    for (int e = 0; e <= d; ++e) {
        double D[10];
        dbasis(U, k, p, u, e, D);
        for (int r = 0; r <= p; ++r) vc_check_eq(N[e][r], D[r], "derivative of the basis function");
    }
}
// the recurrence above is the derivative (Taylor coefficients of the Cox-de Boor functions)
VC_HARNESS(derivative_recurrence) {
    const int p = (int)vc_enum("p", 1, CMMCORE_MAX_DEGREE);
    const int k = (int)vc_int("k", p, 100000);
    std::vector<double> U;
    vc::reals(U, k + p + 1, "U", -8, 8, vc::SORTED);
    double u = vc_real("u", -8, 8);
    vc_assume(U[k] <= u); vc_assume(u <= U[k + 1]); vc_assume(U[k] < U[k + 1]);
    ref::Jet<1> J[10];
    ref::basis(U, k, p, ref::Jet<1>::var(u), J);
    double D[10];
    dbasis(U, k, p, u, 1, D);
    for (int r = 0; r <= p; ++r) vc_check_eq(J[r].c[1], D[r], "lemma: the recurrence is the derivative");
}
// ---- curves: callers see the contracts of the span search and of the basis derivatives
static const int MAXD = 5;
static struct { const std::vector<double> *U; int k, p, n, d; double u; double D[MAXD][CMMCORE_DEG_STACK_SIZE]; } gh;
extern "C" int span_contract(int n, int p, double u, const std::vector<double> *U, bool) {
    vc_check(U == gh.U && n == gh.n && p == gh.p && u == gh.u, "callee: the span is searched in the knot vector of the curve");
    return gh.k;
}
extern "C" void ders_contract(int k, double u, int p, int d, const std::vector<double> *U, std::vector<std::array<double, CMMCORE_DEG_STACK_SIZE>> *N) {
    vc_check(U == gh.U && k == gh.k && p == gh.p && u == gh.u && d <= p && d < MAXD, "callee: the basis derivatives are those of the span of the parameter");
    N->assign(d + 1, std::array<double, CMMCORE_DEG_STACK_SIZE>{});
    for (int e = 0; e <= d; ++e) for (int i = 0; i <= p; ++i) (*N)[e][i] = gh.D[e][i];
}
static void ghost(std::vector<double> &U, int p, int n, int d) {   // the first d derivatives, zero above the degree
    vc::reals(U, n + p + 2, "U", -8, 8, vc::SORTED);
    const int k = (int)vc_int("k", p, n);
    double u = vc_real("u", -8, 8);
    if (!VC_SYM) u = U[k] + (U[k + 1] - U[k]) * fabs(u) / 9;
    vc_assume(U[k] <= u); vc_assume(k == n ? u <= U[k + 1] : u < U[k + 1]); vc_assume(U[k] < U[k + 1]);
    gh.U = &U; gh.k = k; gh.p = p; gh.n = n; gh.u = u; gh.d = d;
    for (int e = 0; e <= d; ++e) {
        double D[10];
        if (!VC_SYM && e <= p) dbasis(U, k, p, u, e, D);
        for (int i = 0; i <= p; ++i) gh.D[e][i] = e > p ? 0 : VC_SYM ? vc_real("D", -8, 8) : D[i];
    }
}
VC_HARNESS(curve_derivatives_homogeneous) {
    const int p = (int)vc_enum("p", 1, CMMCORE_MAX_DEGREE), d = (int)vc_enum("d", 0, MAXD - 1);
    const int n = (int)vc_int("n", p, 100000);
    std::vector<double> U;
    ghost(U, p, n, d);
    std::vector<vec4> P, CK;
    vc::reals(P, n + 1, "P");
    curve_derivs_alg1(n, p, U, P, gh.u, d, CK, vc_int("periodic", 0, 1));
    vc_check((int)CK.size() == std::min(d, p) + 1, "one vector per order up to the degree");
    for (int e = 0; e <= std::min(d, p); ++e) for (int c = 0; c < 4; ++c) {
        double a = 0;
        for (int i = 0; i <= p; ++i) a += gh.D[e][i] * P[gh.k - p + i][c];
        vc_check_eq(CK[e][c], a, "derivative of the polynomial curve");
    }
}
static const int C[5][5] = {{1}, {1, 1}, {1, 2, 1}, {1, 3, 3, 1}, {1, 4, 6, 4, 1}};
// the derivatives C_k of the rational curve A / W: A^(k) = sum_i binomial(k, i) W^(i) C_(k-i)
VC_HARNESS(curve_derivatives) {
    const int p = (int)vc_enum("p", 1, CMMCORE_MAX_DEGREE), d = (int)vc_enum("d", 1, MAXD);
    const int n = (int)vc_int("n", p, 100000);
    NURBSCurve &c = *new NURBSCurve;
    c._degree = p; c._periodic = vc_int("periodic", 0, 1);
    ghost(c.knots, p, n, d - 1);
    vc::reals(c.control_points, n + 1, "P");
    double A[MAXD][3], W[MAXD], M[MAXD] = {};
    for (int e = 0; e < d; ++e) {
        W[e] = A[e][0] = A[e][1] = A[e][2] = 0;
        for (int i = 0; i <= p; ++i) {
            vec4 &q = c.control_points[gh.k - p + i];
            if (!VC_SYM) { if (!e) q.w = fabs(q.w) + 0.5; M[e] += 100 * fabs(gh.D[e][i] * q.w); }
            W[e] += gh.D[e][i] * q.w;
            for (int x = 0; x < 3; ++x) A[e][x] += gh.D[e][i] * q.w * q[x];
        }
    }
    vc_assume(W[0] > 0);
    std::vector<vec3> r;
    c.derivative(gh.u, r, d);
    vc_check((int)r.size() == d, "as many derivatives as asked for");
    for (int e = 0; e < d; ++e) for (int x = 0; x < 3; ++x) {
        double s = 0, m = M[e];
        for (int i = 0; i <= e; ++i) { s += C[e][i] * W[i] * r[e - i][x]; if (!VC_SYM) m += fabs(C[e][i] * r[e - i][x]) * M[i]; }
        vc::close(s, A[e][x], m, "derivative of the rational curve");
    }
    if (d == 2) {
        vec3 v(7, 7, 7);
        c.derivative(gh.u, v);
        for (int x = 0; x < 3; ++x) vc::close(W[0] * v[x] + W[1] * r[0][x], A[1][x], M[1] + M[0] * fabs(v[x]), "first derivative of the rational curve");
        std::vector<vec3> r2(2);
        c.derivative(gh.u, r2);
        vc_check(r2.size() == 2, "the size of the vector tells the number of derivatives");
        for (int x = 0; x < 3; ++x) { vc_check_eq(r2[0][x], r[0][x], "derivatives into a sized vector"); vc_check_eq(r2[1][x], r[1][x], "derivatives into a sized vector"); }
    }
}
// the derivative curve of a polynomial curve (all weights one), compared at every parameter
VC_HARNESS(derivative_curve) {
    const int p = (int)vc_enum("p", 1, CMMCORE_MAX_DEGREE);
    const int n = (int)vc_int("n", p, 100000);
    NURBSCurve &c = *new NURBSCurve, &r = *new NURBSCurve, &e = *new NURBSCurve;
    c._degree = p;
    vc::reals(c.knots, n + p + 2, "U", -8, 8, vc::SORTED);
    vc_strict(&c.knots, p, 1, n + p + 1);     // no inner knot is repeated more than p times
    const double lo[4] = {-8, -8, -8, 1}, hi[4] = {8, 8, 8, 1};
    vc_sym_vec_in(&c.control_points, n + 1, 4, "P", lo, hi);
    const std::vector<double> &U = c.knots;
    const std::vector<vec4> &P = c.control_points;
    const int k = (int)vc_int("k", p, n);
    double u = vc_real("u", -8, 8);
    if (!VC_SYM) u = U[k] + (U[k + 1] - U[k]) * fabs(u) / 9;
    vc_assume(U[k] <= u); vc_assume(u <= U[k + 1]); vc_assume(U[k] < U[k + 1]);
    c.get_derivative(r);
    vc_check(r._degree == p - 1, "the degree drops by one");
    vc_check((long)r.control_points.size() == n, "one control point less");
    vc_check((long)r.knots.size() == n + p, "two knots less");
    VC_FORALL(i, 0, (long)r.knots.size()) vc_check_eq(r.knots[i], U[i + 1], "the outer knots are dropped");
    vc_check_eq(r._interval[0], U[1], "the domain starts at the first knot of the result"); vc_check_eq(r._interval[1], U[n + p], "the domain ends at the last knot of the result");
    double D[10], B[10];
    both(U, k, p, u, 1, B, D);
    for (int x = 0; x < 3; ++x) {
        double a = 0, b = 0;
        for (int i = 0; i <= p; ++i) a += D[i] * P[k - p + i][x];
        for (int i = 0; i < p; ++i) b += B[i] * r.control_points[k - p + i][x];
        vc_check_eq(b, a, "the curve is the derivative");
    }
    for (int i = 0; i < p; ++i) vc_check_eq(r.control_points[k - p + i].w, 1, "weights are one");
}
// ---- the derivative surface: a grid of fixed size, all control points and knots
VC_HARNESS(derivative_surface) {
    const int p = (int)vc_enum("p", 1, 3), q = (int)vc_enum("q", 1, 3), a = (int)vc_enum("a", 0, 1), b = (int)vc_enum("b", 0, 1), dir = (int)vc_enum("dir", 0, 1);
    const int n = p + a, m = q + b, k = (int)vc_enum("k", p, n), l = (int)vc_enum("l", q, m);
    NURBSSurface s, r;
    s._degree = {p, q}; s._size = {(size_t)n + 1, (size_t)m + 1};
    vc::reals(s._knots_u, n + p + 2, "U", -8, 8, vc::SORTED); vc::reals(s._knots_v, m + q + 2, "V", -8, 8, vc::SORTED);
    const int g = dir ? q : p, last = dir ? m : n, h = dir ? l : k;
    std::vector<double> &K = dir ? s._knots_v : s._knots_u;
    vc_strict(&K, g, 1, last + g + 1);
    double u = vc_real("u", -8, 8);
    if (!VC_SYM) u = K[h] + (K[h + 1] - K[h]) * fabs(u) / 9;
    vc_assume(K[h] <= u); vc_assume(u <= K[h + 1]); vc_assume(K[h] < K[h + 1]);
    s._control_points.resize(n + 1);
    for (auto &row : s._control_points) vc::reals(row, m + 1, "P");
    r._degree = {9, 9};
    if (vc_enum("form", 0, 1)) s.get_derivative(dir, r); else r = s.get_derivative(dir);
    vc_check(r._degree[dir] == g - 1 && r._degree[1 - dir] == s._degree[1 - dir], "the degree drops by one in the direction of the derivative");
    vc_check((int)r._size[dir] == last && r._size[1 - dir] == s._size[1 - dir], "one control point less in the direction of the derivative");
    vc_check(r._control_points.size() == r._size[0] && r._control_points[0].size() == r._size[1], "the control grid has that size");
    const std::vector<double> &R = dir ? r._knots_v : r._knots_u, &O = dir ? r._knots_u : r._knots_v, &O0 = dir ? s._knots_u : s._knots_v;
    vc_check(R.size() == K.size() - 2 && O.size() == O0.size(), "two knots less in the direction of the derivative");
    for (size_t i = 0; i < R.size(); ++i) vc_check_eq(R[i], K[i + 1], "the outer knots are dropped");
    for (size_t i = 0; i < O.size(); ++i) vc_check_eq(O[i], O0[i], "the other knots stay");
    vc_check_eq(r._interval[dir][0], R[0], "domain"); vc_check_eq(r._interval[dir][1], R.back(), "domain");
    vc_check_eq(r._interval[1 - dir][0], O[0], "domain"); vc_check_eq(r._interval[1 - dir][1], O.back(), "domain");
    double D[10], B[10];
    both(K, h, g, u, 1, B, D);
    for (int o = 0; o <= (dir ? n : m); ++o) for (int c = 0; c < 4; ++c) {
        double x = 0, y = 0;
        for (int i = 0; i <= g; ++i) x += D[i] * (dir ? s._control_points[o][h - g + i] : s._control_points[h - g + i][o])[c];
        for (int i = 0; i < g; ++i) y += B[i] * (dir ? r._control_points[o][h - g + i] : r._control_points[h - g + i][o])[c];
        vc_check_eq(y, x, "the homogeneous surface is the partial derivative");
    }
}
// ---- difference quotients of an arbitrary curve or surface
extern "C" void curve_eval(const NURBSCurve *, double t, vec3 *r) { *r = vec3(vc_uf1("cx", t), vc_uf1("cy", t), vc_uf1("cz", t)); }
extern "C" void surface_eval(const NURBSSurface *, double u, double v, vec3 *r) { *r = vec3(vc_uf2("sx", u, v), vc_uf2("sy", u, v), vc_uf2("sz", u, v)); }
static const double h = 1e-5;
static void quotient(double q, double h, double diff, const char *l) {    // q = diff / h up to the rounding of the constant
    const double e = q * h - diff;
    vc_check_le(e < 0 ? -e : e, 1e-9 * (diff < 0 ? -diff : diff) + (VC_SYM ? 0 : 1e-9), l);
}
VC_HARNESS(curve_differences) {
    NURBSCurve &c = *new NURBSCurve;
    if (!VC_SYM) { std::vector<vec4> P; vc::reals(P, 6, "P"); for (auto &x : P) x.w = 1; c = NURBSCurve(P, 3); }
    const double t = VC_SYM ? vc_real("t", -8, 8) : 1.4 + vc_real("t", -1, 1);
    vec3 a, b, m, d1, d2, e0, e1, e2;
    c.evaluate(t - h, a); c.evaluate(t, m); c.evaluate(t + h, b);
    c.derivative_fdm(t, d1); c.second_derivative_fdm(t, d2); c.derivatives(t, e0, e1, e2);
    for (int i = 0; i < 3; ++i) {
        quotient(d1[i], 2 * h, b[i] - a[i], "first difference quotient");
        quotient(d2[i], h * h, b[i] - 2 * m[i] + a[i], "second difference quotient");
        vc_check_eq(e0[i], m[i], "the point itself");
        quotient(e1[i], 2 * h, b[i] - a[i], "first difference quotient");
        quotient(e2[i], h * h, b[i] - 2 * m[i] + a[i], "second difference quotient");
    }
}
static void sample(NURBSSurface &s, double &u, double &v) {
    if (!VC_SYM) {
        std::vector<std::vector<vec4>> P(5);
        for (auto &x : P) { vc::reals(x, 5, "P"); for (auto &y : x) y.w = 1; }
        s = NURBSSurface(P, {2, 3});
    }
    u = VC_SYM ? vc_real("u", -8, 8) : 1.5 + vc_real("u", -1, 1);
    v = VC_SYM ? vc_real("v", -8, 8) : 1 + vc_real("v", -.9, .9);
}
VC_HARNESS(surface_differences) {
    NURBSSurface &s = *new NURBSSurface;
    double u, v;
    sample(s, u, v);
    vec3 a, b, c, d, du, dv;
    s.evaluate(u - h, v, a); s.evaluate(u + h, v, b); s.evaluate(u, v - h, c); s.evaluate(u, v + h, d);
    s.derivative_u(u, v, du); s.derivative_v(u, v, dv);
    for (int i = 0; i < 3; ++i) { quotient(du[i], 2 * h, b[i] - a[i], "difference quotient along u"); quotient(dv[i], 2 * h, d[i] - c[i], "difference quotient along v"); }
}
extern "C" void surface_du(const NURBSSurface *, double u, double v, vec3 *r) { *r = vec3(vc_uf2("ux", u, v), vc_uf2("uy", u, v), vc_uf2("uz", u, v)); }
extern "C" void surface_dv(const NURBSSurface *, double u, double v, vec3 *r) { *r = vec3(vc_uf2("vx", u, v), vc_uf2("vy", u, v), vc_uf2("vz", u, v)); }
VC_HARNESS(surface_normal) {
    NURBSSurface &s = *new NURBSSurface;
    double u, v;
    sample(s, u, v);
    vec3 du, dv, n;
    s.derivative_u(u, v, du); s.derivative_v(u, v, dv);
    const vec3 x(du.y * dv.z - du.z * dv.y, du.z * dv.x - du.x * dv.z, du.x * dv.y - du.y * dv.x);
    vc_quantity("x", x.x); vc_quantity("y", x.y); vc_quantity("z", x.z);
    const double len2 = x.x * x.x + x.y * x.y + x.z * x.z;
    vc_assume(len2 > 1e-6);
    s.normal(u, v, n);
    const double l = n.x * n.x + n.y * n.y + n.z * n.z;
    vc_check_le(l, 1 + 1e-12, "the normal has length one"); vc_check_le(1 - 1e-12, l, "the normal has length one");
    vc_check_eq(n.x * x.y, n.y * x.x, "the normal is along du x dv"); vc_check_eq(n.y * x.z, n.z * x.y, "the normal is along du x dv"); vc_check_eq(n.z * x.x, n.x * x.z, "the normal is along du x dv");
    vc_check_lt(0, n.x * x.x + n.y * x.y + n.z * x.z, "the normal points along du x dv");
}
// ---- control points of the derivative curves, on the points that act on one span
VC_HARNESS(derivative_control_points) {
    const int p = (int)vc_enum("p", 1, CMMCORE_MAX_DEGREE), d = (int)vc_enum("d", 0, p);
    const int n = (int)vc_int("n", p, 100000);
    std::vector<double> U;
    std::vector<vec4> P;
    vc::reals(U, n + p + 2, "U", -8, 8, vc::SORTED); vc::reals(P, n + 1, "P");
    const int k = (int)vc_int("k", p, n);
    double u = vc_real("u", -8, 8);
    if (!VC_SYM) u = U[k] + (U[k + 1] - U[k]) * fabs(u) / 9;
    vc_assume(U[k] <= u); vc_assume(u <= U[k + 1]); vc_assume(U[k] < U[k + 1]);
    std::vector<std::vector<vec4>> PK;
    curve_deriv_cpts(p, U, P, d, k - p, k, PK);
    vc_check((int)PK.size() == d + 1, "one row per order");
    for (int e = 0; e <= d; ++e) {
        vc_check((int)PK[e].size() >= p - e + 1, "one point per basis function");
        double D[10], B[10];
        both(U, k, p, u, e, B, D);
        for (int c = 0; c < 4; ++c) {
            double a = 0, b = 0;
            for (int i = 0; i <= p; ++i) a += D[i] * P[k - p + i][c];
            for (int i = 0; i <= p - e; ++i) b += B[i] * PK[e][i][c];
            vc_check_eq(b, a, "the points describe the derivative");
        }
    }
}
// ---- derivatives S_kl of a rational surface A / w: A_kl = sum_ij binomial(k,i) binomial(l,j) w_ij S_(k-i)(l-j)
VC_HARNESS(rational_surface_derivatives) {
    const int d = (int)vc_enum("d", 0, 4);
    std::vector<std::vector<vec4>> A(d + 1, std::vector<vec4>(d + 1)), S;
    for (auto &r : A) for (auto &x : r) vc_sym_block(&x.x, 4, "A");
    if (!VC_SYM) A[0][0].w = fabs(A[0][0].w) + 0.5;
    vc_assume(A[0][0].w > 0);
    rat_surface_derivs(A, d, S);
    vc_check((int)S.size() == d + 1, "one row per order");
    for (int k = 0; k <= d; ++k) for (int l = 0; l <= d; ++l) for (int c = 0; c < 3; ++c) {
        double s = 0, m = 1;
        for (int i = 0; i <= k; ++i) for (int j = 0; j <= l; ++j) { const double t = C[k][i] * C[l][j] * A[i][j].w * S[k - i][l - j][c]; s += t; if (!VC_SYM) m += fabs(t); }
        vc::close(s, A[k][l][c], m, "derivative of the rational surface");
    }
}
