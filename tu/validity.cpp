#include "vc.h"
#include "ref.h"
#include <algorithm>
#include <numeric>
#include "cmmcore/nurbs.h"
using namespace cmmcore;
static const long MAXN = VC_SYM ? 100000 : 20;
// The interval of a curve is the smallest and the largest knot, whatever their order: a lower (upper) bound of all knots,
// and no lower (upper) bound L (H) of all knots is better. On sorted knots these are the first and the last one.
VC_HARNESS(curve_interval) {
    NURBSCurve &c = *new NURBSCurve;
    const long m = vc_int("m", 1, MAXN);
    const double L = vc_real("L", -8, 0), H = vc_real("H", 0, 8);
    vc_sym_vec_in(&c.knots, m, 1, "U", &L, &H);
    auto &U = *new std::vector<double>(c.knots);
    switch (vc_enum("how", 0, 3)) {
    case 0: c.update_interval(); break;
    case 1: c.knots_update_hook(); break;
    case 2: c.set_degree(2); vc_check(c.get_degree() == 2, "degree"); break;
    case 3: { auto &V = *new std::vector<double>(U); c.knots.clear(); c.set_knots(V); break; }
    }
    vc_check_le(L, c._interval[0], "domain starts at a knot"); vc_check_le(c._interval[1], H, "domain ends at a knot");
    VC_FORALL(i, 0, m) {
        vc_check_le(c._interval[0], U[i], "no knot before the domain"); vc_check_le(U[i], c._interval[1], "no knot after the domain");
        vc_check_eq(c.knots[i], U[i], "knots are kept"); vc_check_eq(c.get_knots()[i], U[i], "knots are kept");
    }
    vc_check((long)c.knots.size() == m, "knots are kept");
    vc_check_eq(c.interval()[0], c._interval[0], "interval"); vc_check_eq(c.interval()[1], c._interval[1], "interval");
}
// what the contract above says about sorted knots
extern "C" void interval_contract(NURBSCurve *c) {
    const long m = c->knots.size();
    vc_check(m > 0, "callee: there are knots");
    VC_FORALL(i, 0, m - 1) vc_check_le(c->knots[i], c->knots[i + 1], "callee: the knots are sorted");
    c->_interval[0] = c->knots[0]; c->_interval[1] = c->knots[m - 1];
}
static void open_knots(const NURBSCurve &c, long n, long p) {
    vc_check((long)c.knots.size() == n + p + 1, "one knot for each point, one more than the degree besides");
    VC_FORALL(i, 0, p + 1) vc_check_eq(c.knots[i], 0, "clamped at the start");
    VC_FORALL(j, p + 1, n) vc_check_eq(c.knots[j], j - p, "uniform inside");
    VC_FORALL(l, n, n + p + 1) vc_check_eq(c.knots[l], n - p, "clamped at the end");
    vc_check_eq(c._interval[0], 0, "domain"); vc_check_eq(c._interval[1], n - p, "domain");
}
static void periodic_knots(const NURBSCurve &c, long n, long p) {
    vc_check((long)c.knots.size() == n + p + 1, "one knot for each point, one more than the degree besides");
    VC_FORALL(i, 0, n + p + 1) vc_check_eq(c.knots[i], i - p, "uniform");
    vc_check_eq(c._interval[0], -p, "domain"); vc_check_eq(c._interval[1], n, "domain");
}
VC_HARNESS(curve_open_knots) {
    NURBSCurve &c = *new NURBSCurve;
    const long p = vc_int("p", 1, 8), n = vc_int("n", p + 1, MAXN), old = vc_int("old", 0, MAXN);
    vc_sym_vec(&c.control_points, n, 4, "P", -8, 8, 0); vc::reals(c.knots, old, "old");
    c._degree = p;
    c.generate_knots();
    open_knots(c, n, p);
}
VC_HARNESS(curve_periodic_knots) {
    NURBSCurve &c = *new NURBSCurve;
    const long p = vc_int("p", 1, 8), n = vc_int("n", p + 1, MAXN), old = vc_int("old", 0, MAXN);
    vc_sym_vec(&c.control_points, n, 4, "P", -8, 8, 0); vc::reals(c.knots, old, "old");
    c._degree = p;
    c.generate_knots_periodic();
    periodic_knots(c, n, p);
}
// normalisation: the contract above for knots that lie between their values at two places a and b
static struct { long a, b; } at;
extern "C" void interval_between_contract(NURBSCurve *c) {
    const double lo = c->knots[at.a], hi = c->knots[at.b];
    vc_check_eq(lo, 0, "callee: the smallest knot is 0"); vc_check_eq(hi, 1, "callee: the largest knot is 1");
    VC_FORALL(i, 0, (long)c->knots.size()) { vc_check_le(lo, c->knots[i], "callee: the smallest knot is 0"); vc_check_le(c->knots[i], hi, "callee: the largest knot is 1"); }
    c->_interval[0] = 0; c->_interval[1] = 1;
}
VC_HARNESS(curve_normalize_knots) {
    NURBSCurve &c = *new NURBSCurve;
    const long m = vc_int("m", 2, MAXN);
    const double L = vc_real("L", -8, 0), H = vc_real("H", 1, 8);
    if (VC_SYM) vc_sym_vec_in(&c.knots, m, 1, "U", &L, &H); else vc::reals(c.knots, m, "U", -8, 8, vc::SORTED);
    auto &U = *new std::vector<double>(c.knots);
    const long a = VC_SYM ? vc_int("a", 0, m - 1) : 0, b = VC_SYM ? vc_int("b", 0, m - 1) : m - 1;   // a smallest and a largest knot
    if (VC_SYM) { vc_assume(U[a] == L); vc_assume(U[b] == H); }
    vc_assume(U[a] < U[b]);
    at = {a, b};
    c.normalize_knots();
    vc_check((long)c.knots.size() == m, "number of knots");
    VC_FORALL(i, 0, m) vc_check_eq(c.knots[i] * (U[b] - U[a]) + U[a], U[i], "knots are mapped affinely onto the unit interval");
    vc_check_eq(c._interval[0], 0, "domain"); vc_check_eq(c._interval[1], 1, "domain");
}
static void kept(const NURBSCurve &c, const std::vector<vec4> &P, long n, long p) {
    vc_check(c._degree == p && c.get_degree() == p, "degree"); vc_check((long)c.control_points.size() == n, "control points");
    VC_FORALL(i, 0, n) for (int d = 0; d < 4; ++d) { vc_check_eq(c.control_points[i][d], P[i][d], "control points"); vc_check_eq(c.get_control_points()[i][d], P[i][d], "control points"); }
}
extern "C" void box_free(NURBSCurve *) {}         // sets the box, nothing else (C15)
VC_HARNESS(curve_construct) {
    const long how = vc_enum("how", 0, 8), p = how == 2 || how == 6 ? 3 : how == 5 ? 1 : vc_int("p", 1, 8), n = how == 5 ? vc_int("n", 2, 3) : vc_int("n", p + 1, MAXN);
    auto &P = *new std::vector<vec4>;
    vc_sym_vec(&P, n, 4, "P", -8, 8, 0);
    NURBSCurve *c = nullptr;
    switch (how) {
    case 0: c = new NURBSCurve(P, (int)p, false); break;
    case 1: c = new NURBSCurve(P, (int)p); break;
    case 2: case 5: c = new NURBSCurve(P); break;          // cubic when there are enough points, else a polyline
    case 6: c = new NURBSCurve(P, false); break;
    case 7: case 8: {
        auto &Q = *new std::vector<vec3>;
        vc_sym_vec(&Q, n, 3, "Q", -8, 8, 0);
        c = how == 7 ? new NURBSCurve(Q, (int)p) : new NURBSCurve(Q, (int)p, false);
        VC_FORALL(i, 0, n) { vc_check_eq(c->control_points[i].w, 1, "unit weights"); for (int d = 0; d < 3; ++d) vc_check_eq(c->control_points[i][d], Q[i][d], "control points"); }
        vc_check(c->_degree == p && (long)c->control_points.size() == n && !c->_periodic, "degree");
        open_knots(*c, n, p);
        return;
    }
    case 3: c = new NURBSCurve(n, (int)p, false); c->control_points = P; break;
    case 4: {
        auto &U = *new std::vector<double>; vc::reals(U, n + p + 1, "U", -8, 8, vc::SORTED);
        NURBSCurve &d = *new NURBSCurve(P, (int)p, U, vc_int("periodic", 0, 1));
        kept(d, P, n, p);
        vc_check((long)d.knots.size() == n + p + 1, "given knots");
        VC_FORALL(i, 0, n + p + 1) vc_check_eq(d.knots[i], U[i], "given knots");
        vc_check_eq(d._interval[0], U[0], "domain of given knots"); vc_check_eq(d._interval[1], U[n + p], "domain of given knots");
        return;
    }
    }
    kept(*c, P, n, p);
    open_knots(*c, n, p);
    vc_check(!c->_periodic, "open");
}
// changing the control points keeps the knots when their number stays, and makes new ones otherwise
VC_HARNESS(curve_set_control_points) {
    const long p = vc_int("p", 1, 8), n = vc_int("n", p + 1, MAXN), m = vc_int("m", p + 1, MAXN);
    auto &P = *new std::vector<vec4>;
    vc_sym_vec(&P, n, 4, "P", -8, 8, 0);
    NURBSCurve &c = *new NURBSCurve;
    vc_sym_vec(&c.control_points, m, 4, "Q", -8, 8, 0);
    vc::reals(c.knots, m + p + 1, "U", -8, 8, vc::SORTED);
    auto &U = *new std::vector<double>(c.knots);
    c._degree = p; c._periodic = vc_enum("periodic", 0, 1); c._interval[0] = U[0]; c._interval[1] = U[m + p];
    c.set_control_points(P);
    kept(c, P, n, p);
    if (n == m) {
        vc_check((long)c.knots.size() == m + p + 1, "knots stay");
        VC_FORALL(i, 0, m + p + 1) vc_check_eq(c.knots[i], U[i], "knots stay");
        vc_check_eq(c._interval[0], U[0], "knots stay"); vc_check_eq(c._interval[1], U[m + p], "knots stay");
    } else if (c._periodic) periodic_knots(c, n, p);
    else open_knots(c, n, p);
}
// a periodic curve repeats its first p points, so that it closes smoothly
VC_HARNESS(curve_periodic) {
    const long p = vc_enum("p", 1, CMMCORE_MAX_DEGREE), n = vc_int("n", p + 1, MAXN), closed = vc_enum("closed", 0, 1);
    auto &P = *new std::vector<vec4>;
    vc_sym_vec(&P, n, 4, "P", -8, 8, 0);
    if (closed) for (int j = 0; j < p; ++j) P[n - p + j] = P[j];
    bool same = true;
    for (int j = 0; j < p; ++j) for (int d = 0; d < 4; ++d) same &= P[j][d] == P[n - p + j][d];
    vc_assume(n >= 2 * p); vc_assume(same == (closed != 0));
    NURBSCurve *c = nullptr;
    switch (vc_enum("how", 0, 1)) {
    case 0: c = new NURBSCurve(P, (int)p, true); break;
    case 1: c = new NURBSCurve(P, (int)p, false); vc_check(c->is_periodic() == (closed != 0), "periodic means that the ends repeat"); c->make_periodic(); if (closed) return; break;
    }
    const long m = closed ? n : n + p;
    vc_check(c->_degree == p, "degree"); vc_check((long)c->control_points.size() == m, "control points");
    VC_FORALL(i, 0, n) for (int d = 0; d < 4; ++d) vc_check_eq(c->control_points[i][d], P[i][d], "control points");
    for (int j = 0; j < p; ++j) for (int d = 0; d < 4; ++d) vc_check_eq(c->control_points[m - p + j][d], P[j][d], "the last points repeat the first");
    vc_check(c->_periodic && c->is_periodic(), "periodic");
    periodic_knots(*c, m, p);
}
VC_HARNESS(curve_copies) {
    const long n = vc_int("n", 1, MAXN), m = vc_int("m", 1, MAXN), h = vc_int("h", 0, MAXN), p = vc_int("p", 1, 8), per = vc_int("periodic", 0, 1), old = vc_int("old", 0, MAXN);
    auto &P = *new std::vector<vec4>; auto &U = *new std::vector<double>; auto &H = *new std::vector<vec3>;
    vc_sym_vec(&P, n, 4, "P", -8, 8, 0); vc::reals(U, m, "U"); vc_sym_vec(&H, h, 3, "H", -8, 8, 0);
    NURBSCurve &a = *new NURBSCurve;
    a.control_points = P; a.knots = U; a._hull = H; a._degree = p; a._periodic = per;
    double I[2] = {vc_real("i", -8, 8), vc_real("i", -8, 8)}; vec3 lo(vc_real("b", -8, 8), vc_real("b", -8, 8), vc_real("b", -8, 8)), hi(vc_real("b", -8, 8), vc_real("b", -8, 8), vc_real("b", -8, 8));
    a._interval[0] = I[0]; a._interval[1] = I[1]; a._aabb.min = lo; a._aabb.max = hi;
    NURBSCurve *c = nullptr;
    switch (vc_enum("how", 0, 2)) {
    case 0: c = new NURBSCurve(a); break;
    case 1: c = new NURBSCurve; vc::reals(c->knots, old, "old"); vc_sym_vec(&c->control_points, old, 4, "old", -8, 8, 0); c->_periodic = !per; *c = a; break;
    case 2: c = new NURBSCurve(std::move(a)); break;
    }
    for (int i = 0; i < 2; ++i) a._interval[i] = 99;      // the copy does not share anything with the source
    a._degree = 77; for (auto &k : a.knots) k = 99; for (auto &q : a.control_points) q.x = 99;
    vc_check(c->_degree == p && c->_periodic == (per != 0), "degree and kind");
    vc_check((long)c->control_points.size() == n && (long)c->knots.size() == m && (long)c->_hull.size() == h, "sizes");
    VC_FORALL(i, 0, n) for (int d = 0; d < 4; ++d) vc_check_eq(c->control_points[i][d], P[i][d], "control points");
    VC_FORALL(j, 0, m) vc_check_eq(c->knots[j], U[j], "knots");
    VC_FORALL(k, 0, h) for (int d = 0; d < 3; ++d) vc_check_eq(c->_hull[k][d], H[k][d], "hull");
    for (int i = 0; i < 2; ++i) vc_check_eq(c->_interval[i], I[i], "domain");
    for (int i = 0; i < 3; ++i) { vc_check_eq(c->_aabb.min[i], lo[i], "box"); vc_check_eq(c->_aabb.max[i], hi[i], "box"); }
}
// surfaces
static void open_knots(const std::vector<double> &K, const std::array<double, 2> &I, long n, long p) {
    vc_check((long)K.size() == n + p + 1, "one knot for each point, one more than the degree besides");
    VC_FORALL(i, 0, p + 1) vc_check_eq(K[i], 0, "clamped at the start");
    VC_FORALL(j, p + 1, n) vc_check_eq(K[j], j - p, "uniform inside");
    VC_FORALL(l, n, n + p + 1) vc_check_eq(K[l], n - p, "clamped at the end");
    vc_check_eq(I[0], 0, "domain"); vc_check_eq(I[1], n - p, "domain");
}
VC_HARNESS(surface_open_knots) {
    NURBSSurface &s = *new NURBSSurface;
    const long dir = vc_enum("dir", 0, 1), p = vc_int("p", 1, 8), n = vc_int("n", p + 1, MAXN), old = vc_int("old", 0, MAXN), oldv = vc_int("oldv", 1, MAXN);
    vc::reals(dir ? s._knots_v : s._knots_u, old, "old"); vc::reals(dir ? s._knots_u : s._knots_v, oldv, "other");
    auto &O = *new std::vector<double>(dir ? s._knots_u : s._knots_v);
    s._degree[dir] = p; s._size[dir] = n; s._degree[1 - dir] = 3; s._size[1 - dir] = 7;
    const double I[2] = {vc_real("i", -8, 8), vc_real("i", -8, 8)};
    s._interval[1 - dir][0] = I[0]; s._interval[1 - dir][1] = I[1];
    if (dir) s.generate_knots_v(); else s.generate_knots_u();
    open_knots(dir ? s._knots_v : s._knots_u, s._interval[dir], n, p);
    const auto &K = dir ? s._knots_u : s._knots_v;
    vc_check((long)K.size() == oldv && s._interval[1 - dir][0] == I[0] && s._interval[1 - dir][1] == I[1], "the other direction is kept");
    VC_FORALL(i, 0, oldv) vc_check_eq(K[i], O[i], "the other direction is kept");
}
VC_HARNESS(surface_intervals) {
    NURBSSurface &s = *new NURBSSurface;
    const long m = vc_int("m", 1, MAXN), n = vc_int("n", 1, MAXN), how = vc_enum("how", 0, 1);
    vc::reals(s._knots_u, m, "U", -8, 8, vc::SORTED); vc::reals(s._knots_v, n, "V", -8, 8, vc::SORTED);
    if (how) { s.update_interval_u(); s.update_interval_v(); } else s.update_interval();
    vc_check_eq(s._interval[0][0], s._knots_u[0], "domain"); vc_check_eq(s._interval[0][1], s._knots_u[m - 1], "domain");
    vc_check_eq(s._interval[1][0], s._knots_v[0], "domain"); vc_check_eq(s._interval[1][1], s._knots_v[n - 1], "domain");
    vc_check_eq(s.interval()[1][1], s._knots_v[n - 1], "domain");
}
template<class E> static std::vector<std::vector<E>> &net(long n, long m) {
    auto &P = *new std::vector<std::vector<E>>(n);
    for (auto &r : P) vc::reals(r, m, "P");
    return P;
}
VC_HARNESS(surface_construct) {
    const long n = vc_enum("n", 2, 4), m = vc_enum("m", 2, 4), p = vc_enum("p", 1, 3), q = vc_enum("q", 1, 3), given = vc_enum("given", 0, 3), flat = vc_enum("3d", 0, 1);
    vc_assume(p < n); vc_assume(q < m);
    auto &U = *new std::vector<double>, &V = *new std::vector<double>;
    if (given & 1) vc::reals(U, n + p + 1, "U", -8, 8, vc::SORTED);
    if (given & 2) vc::reals(V, m + q + 1, "V", -8, 8, vc::SORTED);
    NURBSSurface *s; std::vector<std::vector<vec4>> *Q;
    if (flat) {
        auto &P = net<vec3>(n, m);
        s = new NURBSSurface(P, {(int)p, (int)q}, U, V);
        Q = new std::vector<std::vector<vec4>>(n);
        for (long i = 0; i < n; ++i) for (auto &c : P[i]) (*Q)[i].push_back(vec4(c.x, c.y, c.z, 1));
    } else { Q = &net<vec4>(n, m); s = new NURBSSurface(*Q, {(int)p, (int)q}, U, V); }
    vc_check(s->_degree[0] == p && s->_degree[1] == q && (long)s->_size[0] == n && (long)s->_size[1] == m, "degrees and size");
    vc_check((long)s->shape()[0] == n && (long)s->shape()[1] == m && (long)s->_control_points.size() == n, "degrees and size");
    for (long i = 0; i < n; ++i) {
        vc_check((long)s->_control_points[i].size() == m, "degrees and size");
        for (long j = 0; j < m; ++j) for (int d = 0; d < 4; ++d) vc_check_eq(s->_control_points[i][j][d], (*Q)[i][j][d], "control points");
    }
    for (int d = 0; d < 2; ++d) {
        const auto &K = d ? s->knots_v() : s->knots_u(); const auto &G = d ? V : U;
        if (given >> d & 1) {
            vc_check(K.size() == G.size(), "given knots");
            for (size_t i = 0; i < G.size(); ++i) vc_check_eq(K[i], G[i], "given knots");
            vc_check_eq(s->_interval[d][0], G[0], "domain of given knots"); vc_check_eq(s->_interval[d][1], G[G.size() - 1], "domain of given knots");
        } else open_knots(K, s->_interval[d], d ? m : n, d ? q : p);
    }
}
VC_HARNESS(surface_construct_refused) {
    const long n = vc_enum("n", 0, 2);
    auto &P = *new std::vector<std::vector<vec4>>(n);
    bool thrown = false;
    try { NURBSSurface s(P, {1, 1}); } catch (const std::invalid_argument &) { thrown = true; }
    vc_check(thrown, "an empty net is refused");
}
