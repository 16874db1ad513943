import sys, os
sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
from mkseed import mkseed
NU = 'cmmcore/nurbs_utils.h'
mkseed('S01', 'C01', [(NU, '''        const int control_points_count=n+1;
        while (( span < control_points_count) && (U[span] <= u))
        {
            span += 1;
        }


    return span - 1;
''', '''        const int control_points_count=n+1;
        if (n - degree > 40) {
            // long knot vectors: start close to where u would be for evenly spaced knots
            const double guess = (u - U[degree]) / (U[control_points_count] - U[degree]) * (n - degree);
            if (guess > 1 && guess < n) span += static_cast<int>(guess) / 2;
        }
        while (( span < control_points_count) && (U[span] <= u))
        {
            span += 1;
        }


    return std::min(span - 1, n);
''')], r'''
#include <cstdio>
#include "cmmcore/nurbs_utils.h"
using namespace cmmcore;
int main() {
    // a long knot vector with most of its knots near the end
    std::vector<double> U{0,0,0,0};
    for (int i = 1; i < 80; i++) U.push_back(100 - 100.0 / (1 + i * i) * 0.9 + i * 0.01 - 40 * (i < 2));
    double e = U.back() + 1000;
    for (int i = 0; i < 4; i++) U.push_back(e);
    int n = (int)U.size() - 5, bad = 0;
    for (double u = 0; u < e; u += 0.37) {
        int s = find_span(n, 3, u, U, false);
        if (!(U[s] <= u && u < U[s + 1])) { printf("u=%g span=%d\n", u, s); bad = 1; }
    }
    U = {0,0,0,0};
    for (int i = 1; i < 80; i++) U.push_back(900 + i);
    for (int i = 0; i < 4; i++) U.push_back(1000);
    n = (int)U.size() - 5;
    for (double u = 0; u < 1000; u += 0.37) {
        int s = find_span(n, 3, u, U, false);
        if (!(U[s] <= u && u < U[s + 1])) { printf("u=%g span=%d\n", u, s); return 1; }
    }
    return bad;
}
''', 'more than forty spans, unevenly spaced knots', 'the search starts past the span that contains the parameter')

mkseed('S02', 'C06', [(NU, '''        for (size_t i = L + 1; i < span - s; ++i) {
            ctrlpts_new[i] = temp[i - L];
        }''', '''        for (size_t i = L + 1; i + 1 < span - s; ++i) {
            ctrlpts_new[i] = temp[i - L];
        }''')], r'''
#include <cstdio>
#include "cmmcore/nurbs_utils.h"
using namespace cmmcore;
static vec4 ev(int p, const std::vector<double> &U, const std::vector<vec4> &P, double u) {
    int n = P.size() - 1, s = find_span(n, p, u, U, false);
    std::array<double, CMMCORE_DEG_STACK_SIZE> N{};
    basis_funs(s, u, p, U, N);
    vec4 r(0, 0, 0, 0);
    for (int i = 0; i <= p; i++) r += P[s - p + i] * N[i];
    return r;
}
int main() {
    int bad = 0;
    for (int p = 2; p <= 5; p++) for (int num = 1; num <= p; num++) {
        std::vector<double> U;
        std::vector<vec4> P;
        for (int i = 0; i <= p; i++) U.push_back(0);
        for (int i = 1; i < 4; i++) U.push_back(i);
        for (int i = 0; i <= p; i++) U.push_back(4);
        for (int i = 0; i < p + 4; i++) P.push_back(vec4(i, i * i % 7, (i * 5) % 3, 1 + i % 2));
        double u = 1.25;
        int k = find_span(P.size() - 1, p, u, U, false);
        auto V = knot_insertion_kv(U, u, k, num);
        auto Q = knot_insertion(p, U, P, u, num, 0, k);
        for (double t = 0; t < 4; t += 0.11) {
            vec4 a = ev(p, U, P, t), b = ev(p, V, Q, t);
            for (int c = 0; c < 4; c++) if (std::fabs(a[c] - b[c]) > 1e-9) bad = 1;
        }
    }
    return bad;
}
''', 'an insertion count at least two below the degree (single insertion into a cubic, for instance)', 'one interior control point of the refined curve is left at zero, the curve moves')

mkseed('S03', 'C03', [(NU, '''            const double b = N[i] * P[idx].w;
            sum_of_weights += b;
            result.x += b * P[idx].x;''', '''            if (N[i] < 1e-4 * N[pp / 2]) continue; // negligible support
            const double b = N[i] * P[idx].w;
            sum_of_weights += b;
            result.x += b * P[idx].x;''')], r'''
#include <cstdio>
#include "cmmcore/nurbs_utils.h"
using namespace cmmcore;
int main() {
    // a control point with a large weight whose basis value is small at u
    std::vector<double> U{0,0,0,0,1,1,1,1};
    std::vector<vec4> P{vec4(0,0,0,1), vec4(1,2,0,1), vec4(2,2,0,1), vec4(3,0,0,1e9)};
    double u = 1e-4;
    vec3 r(0, 0, 0);
    curve_point(3, 3, U, P, u, r, false);
    double b[4] = {(1-u)*(1-u)*(1-u), 3*u*(1-u)*(1-u), 3*u*u*(1-u), u*u*u}, x = 0, w = 0;
    for (int i = 0; i < 4; i++) { w += b[i] * P[i].w; x += b[i] * P[i].w * P[i].x; }
    return std::fabs(r.x - x / w) > 1e-6;
}
''', 'a basis value four orders of magnitude below its neighbour, with a large weight or fine tolerance', 'the evaluated point drops a control point of small influence')
