#include "vc.h"
#include "cmmcore/nurbs_utils.h"
using namespace cmmcore;
// Cox-de Boor reference on the span k: after step j, B[r] = N_{k-j+r, j}(u), r=0..j
static inline double coxdeboor(const std::vector<double> &U, int k, double u, int j, int r, const double *B) {
    // N_{i,j} = (u-U_i)/(U_{i+j}-U_i) N_{i,j-1} + (U_{i+j+1}-u)/(U_{i+j+1}-U_{i+1}) N_{i+1,j-1}, i=k-j+r
    const int i = k - j + r;
    double v = 0;
    if (r > 0) v += (u - U[i]) / (U[i + j] - U[i]) * B[r - 1];
    if (r < j) v += (U[i + j + 1] - u) / (U[i + j + 1] - U[i + 1]) * B[r];
    return v;
}
VC_HARNESS(basis_coxdeboor) {
    const int p = (int)vc_enum("p", 1, CMMCORE_MAX_DEGREE);
    const int k = (int)vc_int("k", p, 100000);
    std::vector<double> U;
    vc::reals(U, k + p + 1 + vc_int("tail", 0, 1000), "U", -8, 8, vc::SORTED);
    double u = vc_real("u", -8, 8);
    vc_assume(U[k] <= u);
    vc_assume(u <= U[k + 1]);
    vc_assume(U[k] < U[k + 1]);
    std::array<double, CMMCORE_DEG_STACK_SIZE> N{};
    basis_funs(k, u, p, U, N);
    double B[10] = {1};
    for (int j = 1; j <= p; ++j) {
        // lemma: one recurrence step preserves the sum, for arbitrary values of the lower degree
        double G[10], gs = 0, gc = 0;
        for (int r = 0; r < j; ++r) { G[r] = vc_gen(B[r]); gs += G[r]; }
        for (int r = 0; r <= j; ++r) gc += coxdeboor(U, k, u, j, r, G);
        vc_check_eq(gc, gs, "lemma: a recurrence step preserves the sum");
        double C[10];
        for (int r = 0; r <= j; ++r) {
            C[r] = coxdeboor(U, k, u, j, r, B);
            vc_check_le(0, C[r], "lemma: basis functions are nonnegative");
        }
        for (int r = 0; r <= j; ++r) B[r] = C[r];
    }
    double s = 0;
    for (int r = 0; r <= p; ++r) {
        vc_check_eq(N[r], B[r], "basis function equals the Cox-de Boor recurrence");
        vc_check_le(0, N[r], "nonnegative");
        s += N[r];
    }
    if (!VC_SYM || p <= 4) vc_check_eq(s, 1.0, "the basis functions sum to one");
}
