#include "vc.h"
#include "ref.h"
#include <algorithm>
#include <numeric>
#include "cmmcore/nurbs.h"
using namespace cmmcore;
VC_HARNESS(multiplicity_counts) {
    const long N = vc_int("N", 1, 100000), a = vc_int("a", 0, N), b = vc_int("b", a, N);
    std::vector<double> U;
    vc::reals(U, N, "U", -8, 8, vc::SORTED);
    double u = vc_real("u", -8, 8);
    const double gap = vc_int("close", 0, 3) == 3 ? 3e-12 : 1;     // natively: neighbours at any distance above the tolerance
    if (!VC_SYM) {
        for (long i = a; i < b; ++i) U[i] = a < b ? U[a] : u;
        if (a < b) u = U[a];
        for (long i = 0; i < N; ++i) if (i < a) U[i] -= gap; else if (i >= b) U[i] += gap;
        if (a == b) { if (a > 0) u = U[a - 1] + gap / 2; else u = U[0] - gap / 2; }
    }
    // a..b-1 are the knots that equal u, the others are further away than the tolerance
    if (a > 0) vc_assume(U[a - 1] < u - 1e-12);
    if (b < N) vc_assume(u + 1e-12 < U[b]);
    if (a < b) { vc_assume(U[a] == u); vc_assume(U[b - 1] == u); }
    vc_hint_run(a, b);
    vc_check(find_multiplicity(u, U) == b - a, "the multiplicity is the number of equal knots");
}
