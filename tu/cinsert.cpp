#include "vc.h"
#include "ref.h"
#include <algorithm>
#include <numeric>
#include "cmmcore/nurbs.h"
using namespace cmmcore;
// Callers of the span search, of the multiplicity count and of the insertion of homogeneous points see
// their contracts (C01, multiplicity_counts, knot_insertion_preserves).
static struct { long n, p, k, s, num; double u; const std::vector<double> *U; const std::vector<vec4> *P; vec4 *Q; double *V; } gh;
extern "C" int span_contract(int n, int p, double u, const std::vector<double> *U, bool) {
    vc_check((n == gh.n || n == gh.n + 1) && p == gh.p && u == gh.u, "callee: the span of the parameter is searched");
    VC_FORALL(i, 0, gh.n + gh.p + 2) vc_check_eq((*U)[i], (*gh.U)[i], "callee: the span is searched in the knots of the curve");
    return gh.k;
}
extern "C" int multiplicity_contract(double u, const std::vector<double> *U) {
    vc_check(u == gh.u, "callee: the multiplicity of the parameter is counted");
    VC_FORALL(i, 0, gh.n + gh.p + 2) vc_check_eq((*U)[i], (*gh.U)[i], "callee: the multiplicity is counted in the knots of the curve");
    return gh.s;
}
extern "C" void insertion_contract(int p, const std::vector<double> *U, const std::vector<vec4> *P, double u, int num, int s, int k, std::vector<vec4> *Q) {
    vc_check(p == gh.p && u == gh.u && num == gh.num && s == gh.s && k == gh.k, "callee: the parameter is inserted as often as wanted");
    vc_check((long)P->size() == gh.n + 1, "callee: all points");
    VC_FORALL(i, 0, gh.n + gh.p + 2) vc_check_eq((*U)[i], (*gh.U)[i], "callee: the knots of the curve");
    VC_FORALL(i2, 0, gh.n + 1) {
        const vec4 &a = (*P)[i2], &b = (*gh.P)[i2];
        vc_check_eq(a.x, b.x * b.w, "callee: homogeneous points"); vc_check_eq(a.y, b.y * b.w, "callee: homogeneous points");
        vc_check_eq(a.z, b.z * b.w, "callee: homogeneous points"); vc_check_eq(a.w, b.w, "callee: homogeneous points");
    }
    const double lo[4] = {-1e300, -1e300, -1e300, 1e-300}, hi[4] = {1e300, 1e300, 1e300, 1e300};   // positive weights stay positive
    vc_sym_vec_in(Q, gh.n + 1 + num, 4, "Q", lo, hi);
    gh.Q = (new std::vector<vec4>(*Q))->data();
}
std::vector<double> kv_contract(const std::vector<double> &U, const double u, int k, int num) {
    vc_check(u == gh.u && num == gh.num && k == gh.k, "callee: the parameter is inserted into the knots as often as wanted");
    vc_check((long)U.size() == gh.n + gh.p + 2, "callee: all knots");
    VC_FORALL(i, 0, gh.n + gh.p + 2) vc_check_eq(U[i], (*gh.U)[i], "callee: the knots of the curve");
    std::vector<double> V;
    vc::reals(V, gh.n + gh.p + 2 + num, "V", -8, 8, vc::SORTED);
    vc_assume(V[0] == (*gh.U)[0]); vc_assume(V[gh.n + gh.p + 1 + num] == (*gh.U)[gh.n + gh.p + 1]);
    gh.V = V.data();
    return V;
}
VC_HARNESS(curve_insert_knot) {
    const long p = vc_int("p", 1, CMMCORE_MAX_DEGREE), n = vc_int("n", p, VC_SYM ? 100000 : 20), k = vc_int("k", p, n), s = vc_int("s", 0, p - 1), num = vc_int("num", 1, p - s);
    std::vector<double> U;
    vc::reals(U, n + p + 2, "U", -8, 8, vc::SORTED);
    double u = vc_real("u", -8, 8);
    if (!VC_SYM) { u = s ? U[k] : (U[k] + U[k + 1]) / 2; for (int i = 0; i < s; ++i) U[k - i] = u; }
    if (!VC_SYM) { vc_assume(U[k - s] < u - 1e-6); vc_assume(u + 1e-6 < U[k + 1]); vc_assume(U[p] + 1e-6 < U[n + 1]); }
    vc_assume(u < U[k + 1]); vc_assume(s == 0 ? U[k] < u : U[k] == u);
    double lo[4] = {-8, -8, -8, 1e-300}, hi[4] = {8, 8, 8, 1e300};
    if (VC_SYM) for (int i = 0; i < 3; ++i) { lo[i] = vc_real("lo", -8, 8); hi[i] = vc_real("hi", -8, 8); } else { lo[3] = 0.5; hi[3] = 4; }
    std::vector<vec4> P;
    vc_sym_vec_in(&P, n + 1, 4, "P", lo, hi);
    NURBSCurve &c = *new NURBSCurve;
    c.control_points = P; c.knots = U; c._degree = p; c._periodic = false;
    gh = {n, p, k, s, num, u, &U, &P, nullptr, nullptr};
    double t = U[p] + (U[n + 1] - U[p]) * vc_real("t", 0, 0.999); vec3 before, after;
    if (!VC_SYM) c.evaluate(t, before);
    c.insert_knot(u, num);
    vc_check((long)c.control_points.size() == n + 1 + num, "control point count grows by the number of insertions");
    vc_check((long)c.knots.size() == n + p + 2 + num, "knot count grows by the number of insertions");
    VC_FORALL(i, 0, n + p + 2 + num) vc_check_eq(c.knots[i], VC_SYM ? gh.V[i] : i <= k ? U[i] : i <= k + num ? u : U[i - num], "the knots are the old ones plus the inserted value");
    vc_check_eq(c._interval[0], U[0], "interval"); vc_check_eq(c._interval[1], U[n + p + 1], "interval");
    vc_check(c._degree == p, "degree");
    if (VC_SYM) {
        VC_FORALL(i2, 0, n + 1 + num) {
            const vec4 &a = c.control_points[i2], &b = gh.Q[i2];
            vc_check_eq(a.x * b.w, b.x, "the points are those of the refined homogeneous curve"); vc_check_eq(a.y * b.w, b.y, "the points are those of the refined homogeneous curve");
            vc_check_eq(a.z * b.w, b.z, "the points are those of the refined homogeneous curve"); vc_check_eq(a.w, b.w, "the points are those of the refined homogeneous curve");
        }
    } else {
        c.evaluate(t, after);
        for (int i = 0; i < 3; ++i) vc_check_eq(after[i], before[i], "the points are those of the refined homogeneous curve");
    }
}
