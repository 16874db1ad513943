#include "vc.h"
#include "cmmcore/nurbs_utils.h"
using namespace cmmcore;
VC_HARNESS(span_contains) {
    const int p = (int)vc_int("p", 1, CMMCORE_MAX_DEGREE);
    const int n = (int)vc_int("n", p, 1000000);      // last control point
    std::vector<double> U;
    vc::reals(U, n + p + 2, "U", -8, 8, vc::SORTED);
    const bool per = vc_int("periodic", 0, 1);
    double u = vc_real("u", -8, 8);
    vc_assume(U[p] <= u);
    vc_assume(u <= U[n + 1]);
    const int s = find_span(n, p, u, U, per);
    vc_check(p <= s, "span is at least the degree");
    vc_check(s <= n, "span is at most the last control point");
    vc_check_le(U[s], u, "the span starts at or before the parameter");
    if (u < U[n + 1]) vc_check(u < U[s + 1], "the span ends after the parameter");
    else vc_check(s == n, "the end of the domain belongs to the last span");
}
// the span does not depend on how far the search may run, nor on knots beyond it
VC_HARNESS(span_unique) {
    const int p = (int)vc_int("p", 1, CMMCORE_MAX_DEGREE);
    const int n = (int)vc_int("n", p, 1000000);
    std::vector<double> U;
    vc::reals(U, n + 2 + vc_int("tail", 0, 1000), "U", -8, 8, vc::SORTED);
    const int k = (int)vc_int("k", p, n);
    double u = vc_real("u", -8, 8);
    if (!VC_SYM) u = U[k] + (U[k + 1] - U[k]) * fabs(u) / 9;
    vc_assume(U[k] <= u);
    vc_assume(u < U[k + 1]);
    vc_check(find_span(n, p, u, U, vc_int("periodic", 0, 1)) == k, "the span is the one that contains the parameter");
}
