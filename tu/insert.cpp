#include "vc.h"
#include "ref.h"
#include "cmmcore/nurbs_utils.h"
using namespace cmmcore;
// the homogeneous curve sum N_i P_i is the same before and after inserting u num times
VC_HARNESS(knot_insertion_preserves) {
    const int p = (int)vc_enum("p", 1, CMMCORE_MAX_DEGREE);
    const int s = (int)vc_enum("s", 0, p - 1);           // multiplicity of u before
    const int num = (int)vc_enum("num", 1, p - s);       // number of insertions
    const int n = (int)vc_int("n", p, 100000);
    const int k = (int)vc_int("k", p, n);                // span of u
    std::vector<double> U;
    vc::reals(U, n + p + 2, "U", -8, 8, vc::SORTED);
    double u = vc_real("u", -8, 8);
    if (!VC_SYM) { u = s ? U[k] : u; for (int i = 0; i < s; ++i) U[k - i] = u; }
    vc_assume(u < U[k + 1]);
    vc_assume(s == 0 ? U[k] < u : U[k] == u);
    for (int i = 1; i < s; ++i) vc_assume(U[k - i] == u);
    vc_assume(U[k - s] < u);
    std::vector<vec4> P;
    vc::reals(P, n + 1, "P", -8, 8);
    std::vector<double> V = knot_insertion_kv(U, u, k, num);
    std::vector<vec4> Q = knot_insertion(p, U, P, u, num, s, k);
    vc_check(V.size() == U.size() + num, "knot count grows by the number of insertions");
    vc_check(Q.size() == P.size() + num, "control point count grows by the number of insertions");
    VC_FORALL(i, 0, (long)V.size()) {
        vc_check_eq(V[i], i <= k ? U[i] : i <= k + num ? u : U[i - num], "the knots are the old ones plus the inserted value");
    }
    // any parameter t of the curve's domain, on a non-degenerate span j
    const int delta = (int)vc_enum("delta", -p - 1, p + 1);
    const int j = delta == -p - 1 ? (int)vc_int("j", p, k - p - 1) : delta == p + 1 ? (int)vc_int("j", k + p + 1, n) : k + delta;
    vc_assume(p <= j && j <= n);
    double t = vc_real("t", -8, 8);
    if (!VC_SYM) t = U[j] + (U[j + 1] - U[j]) * fabs(t) / 9;
    vc_assume(U[j] <= t);
    vc_assume(t < U[j + 1]);
    const int j2 = t < u ? j : j + num;
    double A[10], B[10];
    ref::basis(U, j, p, t, A);
    ref::basis(V, j2, p, t, B);
    for (int c = 0; c < 4; ++c) {
        double a = 0, b = 0;
        for (int i = 0; i <= p; ++i) { a += A[i] * P[j - p + i][c]; b += B[i] * Q[j2 - p + i][c]; }
        vc_check_eq(b, a, "same point");
    }
}
// positive weights stay positive: every new weight is a convex combination of old ones
VC_HARNESS(knot_insertion_positive) {
    const int p = (int)vc_enum("p", 1, CMMCORE_MAX_DEGREE), s = (int)vc_enum("s", 0, p - 1), num = (int)vc_enum("num", 1, p - s);
    const int n = (int)vc_int("n", p, 100000), k = (int)vc_int("k", p, n);
    std::vector<double> U;
    vc::reals(U, n + p + 2, "U", -8, 8, vc::SORTED);
    double u = vc_real("u", -8, 8);
    if (!VC_SYM) { u = s ? U[k] : u; for (int i = 0; i < s; ++i) U[k - i] = u; }
    vc_assume(u < U[k + 1]);
    vc_assume(s == 0 ? U[k] < u : U[k] == u);
    for (int i = 1; i < s; ++i) vc_assume(U[k - i] == u);
    vc_assume(U[k - s] < u);
    double lo[4] = {-8, -8, -8, 1e-3}, hi[4] = {8, 8, 8, 8};
    if (VC_SYM) for (int i = 0; i < 4; ++i) { lo[i] = vc_real("lo", -8, 8); hi[i] = vc_real("hi", -8, 8); }
    vc_assume(lo[3] > 0);
    std::vector<vec4> P;
    vc_sym_vec_in(&P, n + 1, 4, "P", lo, hi);
    for (int j = 1; j <= num; ++j) for (int i = 0; i <= p - j - s; ++i) {
        double a = knot_insertion_alpha(u, U, k, i, k - p + j);
        vc_check_lt(0, a, "blending factors lie between 0 and 1"); vc_check_lt(0, 1 - a, "blending factors lie between 0 and 1");
    }
    std::vector<vec4> Q = knot_insertion(p, U, P, u, num, s, k);
    VC_FORALL(i, 0, n + 1 + num) if (i < k - p || i > k - s + num) vc_check_lt(0, Q[i].w, "weights stay positive");
    const int d = (int)vc_enum("d", 0, p - s + num);
    vc_check_lt(0, Q[k - p + d].w, "weights stay positive");
}
