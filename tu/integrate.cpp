#include "vc.h"
#include <algorithm>
#include <numeric>
#include <functional>
#include <cmath>
#include "cmmcore/integrate.h"
using namespace cmmcore;
// The integrand: an arbitrary polynomial of degree 4 (all coefficients, so every lower degree too).
static double C[5], last_x, last_f;
static double f(double x) { return C[0] + x * (C[1] + x * (C[2] + x * (C[3] + x * C[4]))); }
static double F(double x) { return x * (C[0] + x * (C[1] / 2 + x * (C[2] / 3 + x * (C[3] / 4 + x * C[4] / 5)))); }
double fun_contract(const std::function<double(double)> *, double x) { return f(x); }
static double recorded(double x) { last_x = x; last_f = f(x); return last_f; }
double fun_recorded(const std::function<double(double)> *, double x) { return recorded(x); }
// 16 to the power k
static double p16(long k) {
    if (!VC_SYM) return std::pow(16.0, (double) k);
    double r = vc_uf1("p16", k);
    if (k == 0) vc_assume(r == 1); else { double q = vc_uf1("p16", k - 1); vc_assume(r == 16 * q); vc_assume(q >= 1); }
    return r;
}
static double est(double a, double b) {   // the first error estimate over [a, b]
    double h = b - a, m = 0.5 * (a + b), S = h / 6 * (f(a) + 4 * f(m) + f(b));
    double L = h / 12 * (f(a) + 4 * f(0.5 * (a + m)) + f(m)), R = h / 12 * (f(m) + 4 * f(0.5 * (m + b)) + f(b));
    return std::fabs((L + R - S) / 15);
}
static void poly() { for (int i = 0; i < 5; ++i) C[i] = vc_real("c", -4, 4); if (!VC_SYM && vc_int("cubic", 0, 1)) C[4] = 0; }
// Contract of adaptiveSimpson for quartics: |exact - r| <= e, e <= est, e <= max(tol, est / 16^(levels left)).
void adaptive_contract(const std::function<double(double)> &, const double a, const double b, const double fa, const double fb, const double fm, const double S,
                       const double tol, double &result, double &error, const size_t depth, const size_t max_depth) {
    double m = 0.5 * (a + b);
    vc_check_eq(fa, f(a), "callee: value at the lower end"); vc_check_eq(fb, f(b), "callee: value at the upper end"); vc_check_eq(fm, f(m), "callee: value at the midpoint");
    vc_check_eq(S, (b - a) / 6 * (f(a) + 4 * f(m) + f(b)), "callee: Simpson estimate");
    vc_check_lt(0, tol, "callee: positive tolerance"); vc_check(depth <= max_depth, "callee: depth within the limit");
    double r = vc_gen(0), e = vc_gen(0), s = est(a, b), x = F(b) - F(a);
    vc_assume(e >= 0); vc_assume(x - r <= e); vc_assume(r - x <= e); vc_assume(e <= s);
    vc_assume(e <= tol || e * p16(max_depth - depth) <= s);
    result += r; error += e;
}
VC_HARNESS(adaptive_simpson) {
    poly();
    double a = vc_real("a", -4, 4), b = vc_real("b", -4, 4), tol = vc_real("tol", 1e-9, 1), r0 = vc_real("r0", -8, 8), e0 = vc_real("e0", 0, 8);
    const long mx = vc_int("max_depth", 0, VC_SYM ? 1000000 : 12), d = vc_int("depth", 0, mx);
    vc_assume(tol > 0);
    double m = 0.5 * (a + b), r = r0, e = e0, s = est(a, b), x = F(b) - F(a), p = p16(mx - d);
    std::function<double(double)> fun = f;
    adaptiveSimpson(fun, a, b, f(a), f(b), f(m), (b - a) / 6 * (f(a) + 4 * f(m) + f(b)), tol, r, e, d, mx);
    vc_check_le(0, e - e0, "the reported error is not negative");
    vc_check_le(x - (r - r0), e - e0, "the integral is within the reported error");
    vc_check_le((r - r0) - x, e - e0, "the integral is within the reported error");
    vc_check_le(e - e0, s, "the error is not above the first estimate");
    if (!(e - e0 <= tol + (VC_SYM ? 0 : 1e-9))) vc_check_le((e - e0) * p, s, "above the tolerance only when the depth is used up");
}
VC_HARNESS(integrate_quartic) {
    poly();
    double a = vc_real("a", -4, 4), b = vc_real("b", -4, 4), tol = vc_real("tol", 1e-9, 1), r = vc_real("r0", -8, 8), e = vc_real("e0", 0, 8);
    const long mx = vc_int("max_depth", 0, VC_SYM ? 1000000 : 12);
    vc_assume(tol > 0);
    double s = est(a, b), x = F(b) - F(a), p = p16(mx);
    std::function<double(double)> fun = f;
    integrate(fun, a, b, r, e, tol, mx);
    vc_check_le(0, e, "the reported error is not negative");
    vc_check_le(x - r, e, "the integral is within the reported error"); vc_check_le(r - x, e, "the integral is within the reported error");
    if (!(e <= tol + (VC_SYM ? 0 : 1e-9))) vc_check_le(e * p, s, "above the tolerance only when the depth is used up");
    if (C[4] == 0) vc_check_eq(r, x, "cubic polynomials are integrated exactly");
}
// integrate over [t0, t] of f, exactly
void integrate_contract(const std::function<double(double)> &, const double t0, const double t1, double &result, double &error, const double, const size_t) { result = F(t1) - F(t0); error = 0; }
VC_HARNESS(find_upper_limit) {
    poly(); C[4] = 0;
    double t0 = vc_real("t0", -4, 4), I = vc_real("I", -4, 4), g = vc_real("guess", -4, 4), tol = vc_real("tol", 1e-9, 1e-3);
    const long mx = vc_int("max_iter", 1, VC_SYM ? 1000000 : 20);
    if (!VC_SYM && vc_int("constant", 0, 1)) { C[1] = C[2] = C[3] = 0; if (std::fabs(C[0]) < 0.1) C[0] = 1; }
    std::function<double(double)> fun = recorded;
    vc_assume(tol > 0);
    double r = find_t1_newton(t0, I, fun, g, tol, mx);
    if (std::fabs(last_f) < 1e-10) { if (!VC_SYM) vc_check(r != r, "refused only when the integrand vanishes"); }
    else if (VC_SYM || std::fabs(last_f) > 1e-2) vc_check_eq((r - last_x) * last_f, I - (F(last_x) - F(t0)), "the answer is a Newton step towards the wanted integral");
}
VC_HARNESS(find_upper_limit_constant) {
    double c = vc_real("c", 0.1, 4), t0 = vc_real("t0", -4, 4), I = vc_real("I", -4, 4), g = vc_real("guess", -4, 4), tol = vc_real("tol", 1e-9, 1e-3);
    if (!VC_SYM && vc_int("negative", 0, 1)) c = -c;
    vc_assume(std::fabs(c) >= 1e-10);
    C[0] = c; for (int i = 1; i < 5; ++i) C[i] = 0;
    const long mx = vc_int("max_iter", 1, VC_SYM ? 1000000 : 20);
    std::function<double(double)> fun = recorded;
    vc_assume(tol > 0);
    double r = find_t1_newton(t0, I, fun, g, tol, mx);
    vc_check_eq((r - t0) * c, I, "the integral of a constant reaches the wanted value");
}
