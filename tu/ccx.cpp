#include "vc.h"
#include <algorithm>
#include <numeric>
#include <cmath>
#include <array>
#include <cassert>
#include <cstdint>
#include <fstream>
#include <functional>
#include <iostream>
#include <memory>
#include <new>
#include <queue>
#include <sstream>
#include <stack>
#include <stdexcept>
#include <string>
#include <unordered_map>
#include <unordered_set>
#include <vector>
#define private public
#include "cmmcore/ccx.h"
#undef private
using namespace cmmcore;
typedef std::vector<std::pair<double, double>> Pairs;
// Two curves, known by: curve k passes through Q[k][i] at the parameter W[k][i]. Pair 0 of the points coincides (a place
// where the curves meet), pair 1 is arbitrary. A piece of a curve is any object whose box holds every point of the curve
// at parameters of its interval (C07: pieces are the curve; C15 and the hull property: the box holds the piece).
static double W[2][2];
static vec3 Q[2][2];
static bool covered;
static double tolerance;
static Pairs *results;
static bool in(const AABB &b, const vec3 &p) { return (b.min.x <= p.x) & (p.x <= b.max.x) & (b.min.y <= p.y) & (p.y <= b.max.y) & (b.min.z <= p.z) & (p.z <= b.max.z); }
static bool within(double t, const NURBSCurve &c) { return (c._interval[0] <= t) & (t <= c._interval[1]); }
static vec3 point(const char *n) { return vec3(vc_real(n, -8, 8), vc_real(n, -8, 8), vc_real(n, -8, 8)); }
static void piece(NURBSCurve &c, int k, double lo, double hi) {
    c._degree = 1 + k;
    c._interval[0] = lo; c._interval[1] = hi;
    c.knots = {lo, lo, hi, hi};
    const vec3 a = point("box"), b = point("box");
    vc_assume((a.x <= b.x) & (a.y <= b.y) & (a.z <= b.z));
    c.control_points = {vec4(a.x, a.y, a.z, 1), vec4(b.x, b.y, b.z, 1)};
    c._aabb.min = a; c._aabb.max = b;
    for (int i = 0; i < 2; ++i) vc_assume(!within(W[k][i], c) | in(c._aabb, Q[k][i]));
}
extern "C" void split_contract(std::pair<NURBSCurve, NURBSCurve> *ret, const NURBSCurve *c, double t, bool normalize) {
    vc_check(!normalize, "callee: pieces keep their parameters");
    vc_check(c->_interval[0] < t && t < c->_interval[1], "callee: split inside the domain");
    const int k = c->_degree - 1;
    new (ret) std::pair<NURBSCurve, NURBSCurve>();
    piece(ret->first, k, c->_interval[0], t);
    piece(ret->second, k, t, c->_interval[1]);
}
// every meeting of the two pieces is reported, old results stay
extern "C" void ccx_contract(const NURBSCurve *a, const NURBSCurve *b, double tol, Pairs *result) {
    vc_check(result == results && tol == tolerance, "callee: the same tolerance and the same results");
    vc_check(a->_degree == 1 && b->_degree == 2, "callee: the first curve first");
    vc_check(a->_interval[0] < a->_interval[1] && b->_interval[0] < b->_interval[1], "callee: nonempty domains");
    for (int k = 0; k < 2; ++k) for (int i = 0; i < 2; ++i) vc_check(!within(W[k][i], k ? *b : *a) | in((k ? b : a)->_aabb, Q[k][i]), "callee: the boxes hold the pieces");
    if (within(W[0][0], *a) & within(W[1][0], *b)) covered = true;
}
// Natively the curves are in general position (turned, not met at a place where a piece ends): where two boxes have a
// single point in common, rounding decides.
static vec4 turned(const vec4 &q, bool flat) {
    const double c = std::cos(1.0), s = std::sin(1.0), x = c * q.x - s * q.y, y = s * q.x + c * q.y;
    return flat ? vec4(x, y, q.z, q.w) : vec4(x, c * y - s * q.z, s * y + c * q.z, q.w);
}
VC_HARNESS(meetings) {
    const double tol = vc_real("tol", 0.05, 1);
    vc_assume(tol > 0);
    if (!VC_SYM) {
        // two curves that meet at a known place
        NURBSCurve c[2];
        double w[2];
        double steep[2] = {0, 0};
        for (int k = 0; k < 2; ++k) {
            const long p = vc_int("p", 1, 3), n = vc_int("n", p + 1, 5);
            const bool flat = vc_int("flat", 0, 1);
            std::vector<vec4> P(n);
            for (auto &q : P) { q = vec4(vc_real("x", -2, 2), vc_real("x", -2, 2), flat ? 0 : vc_real("x", -2, 2), vc_real("w", 0.5, 2)); q = turned(q, flat); }
            c[k] = NURBSCurve(P, (int)p, false);
            const auto d = c[k].interval();
            w[k] = d[0] + (d[1] - d[0]) * (0.137 + 0.71 * vc_real("t", 0, 1));
            for (long i = 1; i < n; ++i) steep[k] += 16 * p * (vec3(P[i].x, P[i].y, P[i].z) - vec3(P[i - 1].x, P[i - 1].y, P[i - 1].z)).length();
        }
        vec3 a, b;
        c[0].evaluate(w[0], a); c[1].evaluate(w[1], b);
        const vec3 d = a - b;
        std::vector<vec4> P = c[1].control_points;
        for (auto &q : P) { q.x += d.x; q.y += d.y; q.z += d.z; }
        c[1] = NURBSCurve(P, c[1]._degree, c[1].knots, false);
        Pairs r;
        ccx(c[0], c[1], tol, r);
        bool found = false;
        for (auto &e : r) {
            vc_check(within(e.first, c[0]) && within(e.second, c[1]), "parameters of the curves");
            vec3 x, y;
            c[0].evaluate(e.first, x); c[1].evaluate(e.second, y);
            vc_check((x - y).length() <= 2 * tol + 1e-6, "the curves come near at what is reported");
            if ((x - a).length() <= tol * (1 + steep[0]) + 1e-6 && (y - a).length() <= tol * (1 + steep[1]) + 1e-6) found = true;
        }
        vc_check(found, "the meeting is reported");
        Pairs s{{77, 78}, {79, 80}};
        ccx(c[0], c[1], tol, s);
        vc_check(s.size() == r.size() + 2 && s[0].first == 77 && s[1].second == 80, "earlier results stay");
        return;
    }
    tolerance = tol;
    double lo[2], hi[2];
    for (int k = 0; k < 2; ++k) {
        lo[k] = vc_real("lo", -8, 8); hi[k] = vc_real("hi", -8, 8);
        vc_assume(lo[k] < hi[k]);
        for (int i = 0; i < 2; ++i) { W[k][i] = vc_real("t", -8, 8); Q[k][i] = point("at"); }
        vc_assume(lo[k] <= W[k][0]); vc_assume(W[k][0] <= hi[k]);
    }
    Q[1][0] = Q[0][0];
    NURBSCurve c[2];
    for (int k = 0; k < 2; ++k) piece(c[k], k, lo[k], hi[k]);
    const long n = vc_enum("n", 0, 2);
    Pairs r, old;
    for (long i = 0; i < n; ++i) { const double u = vc_real("u", -8, 8), v = vc_real("v", -8, 8); r.emplace_back(u, v); old.emplace_back(u, v); }
    results = &r;
    covered = false;
    ccx(c[0], c[1], tol, r);
    bool same = (long)r.size() >= n;
    for (long i = 0; same && i < n; ++i) same = r[i].first == old[i].first && r[i].second == old[i].second;
    vc_check(same, "earlier results stay");
    const double m[2] = {0.5 * (lo[0] + hi[0]), 0.5 * (lo[1] + hi[1])};
    double d[2][3];
    for (int k = 0; k < 2; ++k) { const vec3 e = c[k]._aabb.max - c[k]._aabb.min; d[k][0] = e.x; d[k][1] = e.y; d[k][2] = e.z; }
    // a place near (m0, m1) in parameters is reported, and both curves have less than the tolerance to go there
    bool found = covered;
    if (!covered) for (size_t i = 0; i < r.size(); ++i) {
        const double x = r[i].first - m[0], y = r[i].second - m[1];
        if (-tol <= x && x <= tol && -tol <= y && y <= tol) found = true;
    }
    vc_check(found, "the meeting is reported");
    if (!covered) for (int k = 0; k < 2; ++k) vc_check(d[k][0] * d[k][0] + d[k][1] * d[k][1] + d[k][2] * d[k][2] < tol * tol, "callee: lemma, pieces smaller than the tolerance");
    for (size_t i = n; i < r.size(); ++i) {
        vc_check(within(r[i].first, c[0]) && within(r[i].second, c[1]), "parameters of the curves");
        if (r[i].first == W[0][1] && r[i].second == W[1][1]) {
            const vec3 e = Q[0][1] - Q[1][1];
            const double f[3] = {e.x, e.y, e.z};
            double sum = 0;
            for (int g = 0; g < 3; ++g) {
                const double b = d[0][g] + d[1][g], q = 2 * (d[0][g] * d[0][g] + d[1][g] * d[1][g]);
                vc_check_le(f[g], b, "callee: lemma, no further apart than both boxes"); vc_check_le(-f[g], b, "callee: lemma, no further apart than both boxes");
                const double z = f[g] * f[g], h = vc_gen(z), t = vc_gen(q);
                vc_check_le(z, q, "callee: lemma, squares");
                vc_assume(h <= t); vc_assume(t == q); vc_assume(h == z);
                sum += t;
            }
            vc_check_le(sum, 4 * tol * tol, "the curves come near at what is reported");
        }
    }
}
