#include "vc.h"
#include <algorithm>
#include <cmath>
#include <cstdint>
#include <cstring>
#include <vector>
#include "cmmcore/nurbs.h"
#include "cmmcore/serialization.h"
using namespace cmmcore;
static NURBSCurve curve(long p, long n) {
    std::vector<vec4> P(n); std::vector<double> U(n + p + 1);
    for (auto &c : P) { c.x = vc_real("x", -8, 8); c.y = vc_real("y", -8, 8); c.z = vc_real("z", -8, 8); c.w = vc_real("w", 0.5, 2); }
    for (size_t i = 0; i < U.size(); ++i) { U[i] = vc_real("u", 0, 8); if (!VC_SYM && i && U[i] < U[i - 1]) U[i] = U[i - 1]; if (i) vc_assume(U[i - 1] <= U[i]); }
    return NURBSCurve(P, (int)p, U, false);
}
static void same(const NURBSCurve &a, const NURBSCurve &b) {
    vc_check(a._degree == b._degree, "degree");
    bool e = a.control_points.size() == b.control_points.size() && a.knots.size() == b.knots.size();
    vc_check(e, "number of control points and knots");
    if (!e) return;
    for (size_t i = 0; i < a.control_points.size(); ++i) for (int k = 0; k < 4; ++k) vc_check_eq(a.control_points[i][k], b.control_points[i][k], "control points");
    for (size_t i = 0; i < a.knots.size(); ++i) vc_check_eq(a.knots[i], b.knots[i], "knots");
    bool per = true;
    for (int i = 0; i < a._degree; ++i) for (int k = 0; k < 4; ++k) if (a.control_points[i][k] != a.control_points[a.control_points.size() - a._degree + i][k]) per = false;
    vc_check(b._periodic == per, "kind");
    for (int k = 0; k < 3; ++k) { vc_check_eq(a._aabb.min[k], b._aabb.min[k], "box"); vc_check_eq(a._aabb.max[k], b._aabb.max[k], "box"); }
    vc_check_eq(a._interval[0], b._interval[0], "domain"); vc_check_eq(a._interval[1], b._interval[1], "domain");
}
VC_HARNESS(round_trip) {
    const long p = vc_enum("p", 1, 5), n = vc_enum("n", 2, 8);
    vc_assume(n > p);
    auto c = curve(p, n);
    std::vector<uint8_t> b = serializeNURBSCurve(c);
    const uint8_t *d = b.data();
    const auto r = deserializeNURBSCurve(d);
    same(c, r);
    vc_check(d == b.data() + b.size(), "everything written is read");
}
VC_HARNESS(round_trip_many) {
    const long k = vc_enum("k", 0, 3);
    std::vector<NURBSCurve> cs;
    for (long i = 0; i < k; ++i) {
        cs.push_back(curve(1 + i % 2, 2 + i));
        const auto &P = cs.back().control_points;
        vc_assume(P.front().x < P[P.size() - cs.back()._degree].x);        // not closed; round_trip has both kinds
    }
    const auto b = serializeNURBSCurves(cs);
    const auto r = deserializeNURBSCurves(b);
    vc_check((long)r.size() == k, "number of curves");
    for (size_t i = 0; i < r.size() && i < cs.size(); ++i) same(cs[i], r[i]);
}
VC_HARNESS(scalars) {
    std::vector<uint8_t> b;
    const long i = vc_int("i", -2147483648L, 2147483647L); const bool t = vc_enum("t", 0, 1); const double x = vc_real("x", -8, 8);
    serializeInt(b, i); serializeBool(b, t); serializeDouble(b, x); serializeInt(b, 7);
    const uint8_t *d = b.data();
    vc_check(deserializeInt(d) == i, "integer"); vc_check(deserializeBool(d) == t, "truth value"); vc_check(deserializeDouble(d) == x, "real number"); vc_check(deserializeInt(d) == 7, "integer");
    vc_check(d == b.data() + b.size(), "everything written is read");
}
VC_HARNESS(vectors) {
    const long n = vc_enum("n", 0, 20);
    std::vector<double> v(n); std::vector<vec4> q(n);
    for (auto &x : v) x = vc_real("x", -8, 8);
    for (auto &c : q) { c.x = vc_real("x", -8, 8); c.y = vc_real("y", -8, 8); c.z = vc_real("z", -8, 8); c.w = vc_real("w", 0.5, 2); }
    std::vector<uint8_t> b;
    serializeVectorDouble(b, v); serializeVectorVec4(b, q);
    const uint8_t *d = b.data();
    const auto v2 = deserializeVectorDouble(d); const auto q2 = deserializeVectorVec4(d);
    vc_check(v2.size() == v.size() && q2.size() == q.size(), "length");
    for (long i = 0; i < n && i < (long)v2.size() && i < (long)q2.size(); ++i) { vc_check_eq(v2[i], v[i], "elements"); for (int k = 0; k < 4; ++k) vc_check_eq(q2[i][k], q[i][k], "elements"); }
    vc_check(d == b.data() + b.size(), "everything written is read");
}
