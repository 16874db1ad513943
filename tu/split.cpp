#include "vc.h"
#include "ref.h"
#include <algorithm>
#include <numeric>
#include "cmmcore/nurbs.h"
using namespace cmmcore;
// The span search, the multiplicity count and knot insertion are seen through their contracts (C01, C06).
static struct { long n, p, k, s; double u; const std::vector<double> *U; const std::vector<vec4> *P, *Q; const std::vector<double> *V; } gh;
extern "C" int span_contract(int n, int p, double u, const std::vector<double> *U, bool) {
    // find_span may be given one control point too many: the span of an inner parameter is the same (C01)
    vc_check(p == gh.p && u == gh.u, "callee: the span of the parameter is searched");
    const long r = gh.p - gh.s;
    if ((long)U->size() == gh.n + gh.p + 2) {
        vc_check(n == gh.n || n == gh.n + 1, "callee: the span is searched in the knots of the curve");
        VC_FORALL(i, 0, gh.n + gh.p + 2) vc_check_eq((*U)[i], (*gh.U)[i], "callee: the span is searched in the knots of the curve");
        return gh.k;
    }
    vc_check((long)U->size() == gh.n + gh.p + 2 + r && (n == gh.n + r || n == gh.n + r + 1), "callee: the span is searched in the knots of the curve");
    VC_FORALL(i, 0, gh.n + gh.p + 2 + r) vc_check_eq((*U)[i], (*gh.V)[i], "callee: the span is searched in the knots of the curve");
    return gh.k + r;
}
extern "C" int multiplicity_contract(double u, const std::vector<double> *U) {
    vc_check(u == gh.u, "callee: the multiplicity of the parameter is counted");
    vc_check((long)U->size() == gh.n + gh.p + 2, "callee: the multiplicity is counted in the knots of the curve");
    VC_FORALL(i, 0, gh.n + gh.p + 2) vc_check_eq((*U)[i], (*gh.U)[i], "callee: the multiplicity is counted in the knots of the curve");
    return gh.s;
}
// C06: the refined curve has the same shape, knots V = U with u repeated until its multiplicity is p, points Q
extern "C" void insert_contract(NURBSCurve *c, double u, int num) {
    const long r = gh.p - gh.s;
    vc_check(u == gh.u && num == r && c->_degree == gh.p, "callee: the parameter is raised to full multiplicity");
    vc_check((long)c->control_points.size() == gh.n + 1 && (long)c->knots.size() == gh.n + gh.p + 2, "callee: a copy of the curve is refined");
    VC_FORALL(i, 0, gh.n + gh.p + 2) vc_check_eq(c->knots[i], (*gh.U)[i], "callee: a copy of the curve is refined");
    VC_FORALL(i2, 0, gh.n + 1) for (int d = 0; d < 4; ++d) vc_check_eq(c->control_points[i2][d], (*gh.P)[i2][d], "callee: a copy of the curve is refined");
    c->control_points = *gh.Q; c->knots = *gh.V;
}
// C09: on sorted knots the interval is the first and the last knot
extern "C" void interval_contract(NURBSCurve *c) {
    const long m = c->knots.size();
    VC_FORALL(i, 0, m - 1) vc_check_le(c->knots[i], c->knots[i + 1], "callee: the knots are sorted");
    c->_interval[0] = c->knots[0]; c->_interval[1] = c->knots[m - 1];
}
extern "C" void box_contract(NURBSCurve *) {}       // C15: sets the bounding box, nothing else
extern "C" void normalize_contract(NURBSCurve *c) {  // C09: maps the knots affinely onto [0, 1]
    const long m = c->knots.size();
    VC_FORALL(i, 0, m - 1) vc_check_le(c->knots[i], c->knots[i + 1], "callee: the knots are sorted");
    const double a = c->knots[0], b = c->knots[m - 1];
    vc_check_lt(a, b, "callee: the domain is not empty");
    for (long i = 0; i < m; ++i) c->knots[i] = (c->knots[i] - a) / (b - a);
    c->_interval[0] = 0; c->_interval[1] = 1;
}
static void setup(NURBSCurve &c, bool sym) {
    const long p = VC_SYM ? vc_enum("p", 1, CMMCORE_MAX_DEGREE) : vc_int("p", 1, CMMCORE_MAX_DEGREE), n = vc_int("n", p, VC_SYM ? 100000 : 20), k = vc_int("k", p, n);
    const long s = VC_SYM ? vc_enum("s", 0, p) : vc_int("s", 0, p), r = p - s;
    auto &U = *new std::vector<double>, &V = *new std::vector<double>;
    auto &P = *new std::vector<vec4>, &Q = *new std::vector<vec4>;
    vc::reals(U, n + p + 2, "U", -8, 8, vc::SORTED);
    double u = vc_real("u", -8, 8);
    if (!VC_SYM) {
        u = s ? U[k] : (U[k] + U[k + 1]) / 2;
        for (int i = 0; i < s; ++i) U[k - i] = u;
        vc_assume(U[k - s] < u - 1e-3); vc_assume(u + 1e-3 < U[k + 1]);
    }
    vc_assume(s < p || k - s >= 0);
    vc_assume(u < U[k + 1]); vc_assume(s == 0 ? U[k] < u : U[k] == u);
    // u is inside the domain, away from its ends
    vc_assume(U[0] < u - 1e-12); vc_assume(u + 1e-12 < U[n + p + 1]);
    double lo[4] = {-8, -8, -8, 0.5}, hi[4] = {8, 8, 8, 4};
    if (VC_SYM) for (int i = 0; i < 4; ++i) { lo[i] = vc_real("lo", -8, 8); hi[i] = vc_real("hi", -8, 8); }
    vc_assume(lo[3] > 0);
    vc_sym_vec_in(&P, n + 1, 4, "P", lo, hi);
    if (VC_SYM && r == 0) { Q = P; V = U; }
    else if (VC_SYM) {
        vc_sym_vec_in(&Q, n + 1 + r, 4, "Q", lo, hi);
        vc::reals(V, n + p + 2 + r, "V", -8, 8, vc::SORTED);
        vc_assume(V[0] == U[0]); vc_assume(V[n + p + 1 + r] == U[n + p + 1]);
        for (int i = 0; i < p; ++i) vc_assume(V[k + r - i] == u);
        vc_assume(u < V[k + r + 1]);
    }
    gh = {n, p, k, s, u, &U, &P, &Q, &V};
    c.control_points = P; c.knots = U; c._degree = p; c._periodic = false;
    c._interval[0] = U[0]; c._interval[1] = U[n + p + 1];
}
// the two parts are the points and knots of the refined curve on either side of u
static void parts(bool unit) {
    NURBSCurve &c = *new NURBSCurve;
    setup(c, true);
    const long n = gh.n, p = gh.p, k = gh.k, r = gh.p - gh.s;
    const double u = gh.u, a = (*gh.U)[0], b = (*gh.U)[n + p + 1];
    double t = vc_real("t", 0, 0.999); vec3 w0, w1;
    auto &R = *new std::pair<NURBSCurve, NURBSCurve>(c.split(u, unit));
    const NURBSCurve &A = R.first, &B = R.second;
    vc_check(A._degree == p && B._degree == p, "degree");
    vc_check((long)A.control_points.size() == k - p + 1 + r, "number of points of the first part"); vc_check((long)A.knots.size() == k + 2 + r, "number of knots of the first part");
    vc_check((long)B.control_points.size() == n + 1 - k + p, "number of points of the second part"); vc_check((long)B.knots.size() == n - k + 2 * p + 2, "number of knots of the second part");
    // parameters of the parts: t, or scaled to [0, 1]
    const double la = unit ? u - a : 1, oa = unit ? a : 0, lb = unit ? b - u : 1, ob = unit ? u : 0;
    if (VC_SYM) {
        VC_FORALL(i, 0, k + 1 + r) vc_check_eq(A.knots[i] * la + oa, (*gh.V)[i], "knots of the first part");
        vc_check_eq(A.knots[k + 1 + r] * la + oa, u, "knots of the first part");
        for (int i = 0; i <= p; ++i) vc_check_eq(B.knots[i] * lb + ob, u, "knots of the second part");
        VC_FORALL(j, p + 1, n - k + 2 * p + 2) vc_check_eq(B.knots[j] * lb + ob, (*gh.V)[j + k + r - p], "knots of the second part");
        VC_FORALL(i2, 0, k - p + 1 + r) for (int d = 0; d < 4; ++d) vc_check_eq(A.control_points[i2][d], (*gh.Q)[i2][d], "points of the first part");
        VC_FORALL(j2, 0, n + 1 - k + p) for (int d = 0; d < 4; ++d) vc_check_eq(B.control_points[j2][d], (*gh.Q)[j2 + k - p + r][d], "points of the second part");
    }
    vc_check_eq(A._interval[0] * la + oa, a, "domain of the first part"); vc_check_eq(A._interval[1] * la + oa, u, "domain of the first part");
    vc_check_eq(B._interval[0] * lb + ob, u, "domain of the second part"); vc_check_eq(B._interval[1] * lb + ob, b, "domain of the second part");
    if (!VC_SYM) {
        const double lo = (*gh.U)[p], hi = (*gh.U)[n + 1], x = lo + (hi - lo) * t;
        c.evaluate(x, w0);
        if (x < u) A.evaluate((x - oa) / la, w1); else B.evaluate((x - ob) / lb, w1);
        for (int i = 0; i < 3; ++i) vc_check_eq(w1[i], w0[i], x < u ? "points of the first part" : "points of the second part");
        vc_check(true, "knots of the first part"); vc_check(true, "knots of the second part");
    }
}
VC_HARNESS(curve_split) { parts(false); }
VC_HARNESS(curve_split_unit) { parts(true); }
// at the ends of the domain there is nothing to split
VC_HARNESS(curve_split_refused) {
    NURBSCurve &c = *new NURBSCurve;
    c._degree = 1; c._interval[0] = vc_real("a", -8, 8); c._interval[1] = vc_real("b", -8, 8);
    double u = vc_real("u", -8, 8);
    if (!VC_SYM) u = c._interval[vc_int("end", 0, 1)];
    vc_assume(u <= c._interval[0] || u >= c._interval[1]);
    bool thrown = false;
    try { c.split(u); } catch (const std::invalid_argument &) { thrown = true; }
    vc_check(thrown, "refused at the ends of the domain");
}
