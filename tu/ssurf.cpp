#include "vc.h"
#include "ref.h"
#include <algorithm>
#include <numeric>
#include <new>
#include "cmmcore/nurbs.h"
using namespace cmmcore;
// Surfaces are refined and split line by line: each line of control points of the new surface is the line of the old one
// refined by knot_insertion, whose contract (C06) says that the curve of the line stays. Grids of bounded size, arbitrary contents.
struct Line { int p, n, k, s; double u; };       // degree, last index, span and multiplicity of u
// contracts of the span search and of the multiplicity count (C01, C06), for the knots U of a line and those of the line refined
static struct { Line l; const std::vector<double> *U; } gh;
static void knots_known(const std::vector<double> &K, const char *l, long &refined) {
    refined = (long)K.size() - (long)gh.U->size();
    vc_check(refined == 0 || refined == gh.l.p - gh.l.s, l);
    for (long i = 0; i < (long)K.size(); ++i) vc_check_eq(K[i], i <= gh.l.k ? (*gh.U)[i] : i <= gh.l.k + refined ? gh.l.u : (*gh.U)[i - refined], l);
}
extern "C" int span_contract(int n, int p, double u, const std::vector<double> *K, bool) {
    long r;
    knots_known(*K, "callee: the span is searched in the knots of the line", r);
    vc_check(p == gh.l.p && u == gh.l.u && (n == gh.l.n + r || n == gh.l.n + r + 1), "callee: the span of the parameter is searched");
    return gh.l.k + r;
}
extern "C" int multiplicity_contract(double u, const std::vector<double> *K) {
    long r;
    knots_known(*K, "callee: the multiplicity is counted in the knots of the line", r);
    vc_check(u == gh.l.u, "callee: the multiplicity of the parameter is counted");
    return gh.l.s + r;
}
static Line line(std::vector<double> &U, const char *name, int maxp, int extra, bool full) {
    Line l;
    l.p = (int)vc_enum("p", 1, maxp); l.n = (int)vc_enum("n", l.p, l.p + extra); l.k = (int)vc_enum("k", l.p, l.n); l.s = (int)vc_enum("s", 0, full ? l.p : l.p - 1);
    vc::reals(U, l.n + l.p + 2, name, -8, 8, vc::SORTED);
    double u = vc_real("u", -8, 8);
    if (!VC_SYM) {
        u = l.s ? U[l.k] : (U[l.k] + U[l.k + 1]) / 2;
        for (int i = 0; i < l.s; ++i) U[l.k - i] = u;
    }
    vc_assume(l.k - l.s >= 0);
    for (int i = 0; i < l.s; ++i) vc_assume(U[l.k - i] == u);
    vc_assume(u + 1e-6 < U[l.k + 1]); vc_assume(U[l.k - l.s] < u - 1e-6);
    l.u = u; gh.l = l; gh.U = &U;
    return l;
}
static NURBSSurface &grid(int d, const Line &l, const std::vector<double> &U) {
    NURBSSurface &s = *new NURBSSurface;
    const int q = (int)vc_enum("q", 1, 2), m = q + (int)vc_enum("m", 0, 1);
    s._degree[d] = l.p; s._degree[1 - d] = q; s._size[d] = l.n + 1; s._size[1 - d] = m + 1;
    s._control_points.resize(s._size[0]);
    for (auto &r : s._control_points) vc::reals(r, s._size[1], "P");
    if (!VC_SYM) for (auto &r : s._control_points) for (auto &c : r) c.w = fabs(c.w) + 0.5;
    (d ? s._knots_v : s._knots_u) = U;
    std::vector<double> V;
    vc::reals(V, m + q + 2, "V", -8, 8, vc::SORTED);
    (d ? s._knots_u : s._knots_v) = V;
    s.update_interval();
    return s;
}
static std::vector<vec4> column(const NURBSSurface &s, int d, int j) {
    std::vector<vec4> c;
    for (size_t i = 0; i < s._size[d]; ++i) c.push_back(d ? s._control_points[j][i] : s._control_points[i][j]);
    return c;
}
static void same(const std::vector<vec4> &a, const std::vector<vec4> &b, const char *l) {
    vc_check(a.size() == b.size(), l);
    for (size_t i = 0; i < b.size(); ++i) for (int e = 0; e < 4; ++e) vc_check_eq(a[i][e], b[i][e], l);
}
static void same(const std::vector<double> &a, const std::vector<double> &b, const char *l) {
    vc_check(a.size() == b.size(), l);
    for (size_t i = 0; i < b.size(); ++i) vc_check_eq(a[i], b[i], l);
}
static void net(const NURBSSurface &s, const char *l) {
    vc_check(s._control_points.size() == s._size[0], l);
    for (auto &r : s._control_points) vc_check(r.size() == s._size[1], l);
    for (int d = 0; d < 2; ++d) {
        const auto &K = d ? s._knots_v : s._knots_u;
        vc_check(K.size() == s._size[d] + s._degree[d] + 1, l);
        vc_check_eq(s._interval[d][0], K[0], l); vc_check_eq(s._interval[d][1], K[K.size() - 1], l);
    }
}
VC_HARNESS(surface_insert_knot) {
    const int d = (int)vc_enum("dir", 0, 1);
    auto &U = *new std::vector<double>;
    const Line l = line(U, "U", 3, 2, false);
    const int num = (int)vc_enum("num", 1, l.p - l.s), how = (int)vc_enum("how", 0, 1);
    NURBSSurface &s = grid(d, l, U), &o = *new NURBSSurface(s);
    if (how) s.insert_knot(l.u, d, num); else if (d) s.insert_knot_v(l.u, num); else s.insert_knot_u(l.u, num);
    vc_check(s._degree[0] == o._degree[0] && s._degree[1] == o._degree[1], "degrees stay");
    vc_check(s._size[d] == o._size[d] + num && s._size[1 - d] == o._size[1 - d], "size");
    net(s, "the result is a valid surface");
    same(d ? s._knots_v : s._knots_u, knot_insertion_kv(U, l.u, l.k, num), "knots are those of the refined line");
    same(d ? s._knots_u : s._knots_v, d ? o._knots_u : o._knots_v, "the other direction is kept");
    for (size_t j = 0; j < o._size[1 - d]; ++j) same(column(s, d, j), knot_insertion(l.p, U, column(o, d, j), l.u, num, l.s, l.k), "every line is refined");
}
// the first and second part of a surface refined to full multiplicity at u
static void part(const NURBSSurface &s, const NURBSSurface &o, int d, const Line &l, bool second) {
    const int r = l.p - l.s;
    const char *L = second ? "second part" : "first part";
    const std::vector<double> &U = d ? o._knots_v : o._knots_u;
    const std::vector<double> V = r ? knot_insertion_kv(U, l.u, l.k, r) : U;
    std::vector<double> W(V.begin(), V.begin() + (l.k + r + 1));
    if (second) { W.assign(l.p + 1, l.u); W.insert(W.end(), V.begin() + (l.k + r + 1), V.end()); } else W.push_back(l.u);
    vc_check(s._degree[0] == o._degree[0] && s._degree[1] == o._degree[1], L);
    vc_check((int)s._size[d] == (second ? l.n + 1 - l.k + l.p : l.k - l.p + 1 + r) && s._size[1 - d] == o._size[1 - d], L);
    net(s, L);
    same(d ? s._knots_v : s._knots_u, W, L);
    same(d ? s._knots_u : s._knots_v, d ? o._knots_u : o._knots_v, L);
    for (size_t j = 0; j < o._size[1 - d]; ++j) {
        const std::vector<vec4> P = column(o, d, j), Q = r ? knot_insertion(l.p, U, P, l.u, r, l.s, l.k) : P;
        same(column(s, d, j), second ? std::vector<vec4>(Q.begin() + (l.k - l.p + r), Q.end()) : std::vector<vec4>(Q.begin(), Q.begin() + (l.k - l.p + 1 + r)), L);
    }
}
VC_HARNESS(surface_split) {
    const int d = (int)vc_enum("dir", 0, 1);
    auto &U = *new std::vector<double>;
    const Line l = line(U, "U", 3, 2, true);
    NURBSSurface &s = grid(d, l, U), &o = *new NURBSSurface(s);
    vc_assume(l.k < l.n || l.u < U[l.n + 1]); vc_assume(U[0] + 1e-6 < l.u);
    auto &R = *new std::pair<NURBSSurface, NURBSSurface>(d ? s.split_surface_v(l.u) : s.split_surface_u(l.u));
    part(R.first, o, d, l, false); part(R.second, o, d, l, true);
    same(d ? s._knots_v : s._knots_u, U, "the surface itself is kept");
    for (size_t j = 0; j < o._size[1 - d]; ++j) same(column(s, d, j), column(o, d, j), "the surface itself is kept");
}
VC_HARNESS(surface_split_refused) {
    const int d = (int)vc_enum("dir", 0, 1);
    NURBSSurface &s = *new NURBSSurface;
    s._degree = {1, 1};
    s._interval[d][0] = vc_real("a", -8, 8); s._interval[d][1] = vc_real("b", -8, 8);
    double u = vc_real("u", -8, 8);
    if (!VC_SYM) u = s._interval[d][vc_int("end", 0, 1)];
    vc_assume(u <= s._interval[d][0] || u >= s._interval[d][1]);
    bool thrown = false;
    try { if (d) s.split_surface_v(u); else s.split_surface_u(u); } catch (const std::invalid_argument &) { thrown = true; }
    vc_check(thrown, "refused at the ends of the domain");
}
// subdivision: u then v (or v then u), at the given parameters or in the middle of the domain. The splits leave a trace:
// digits 1, 2 for the first and second part in u, 3 and 4 in v
static struct { double u, v; } mid;
static void trace(std::pair<NURBSSurface, NURBSSurface> *r, const NURBSSurface *s, int d, double t) {
    vc_check_eq(t, d ? mid.v : mid.u, "callee: the surface is split at the right parameter");
    new (r) std::pair<NURBSSurface, NURBSSurface>;
    r->first._degree[0] = s->_degree[0] * 10 + 1 + 2 * d; r->second._degree[0] = s->_degree[0] * 10 + 2 + 2 * d;
    for (int e = 0; e < 2; ++e) for (int i = 0; i < 2; ++i) r->first._interval[e][i] = r->second._interval[e][i] = s->_interval[e][i];
    r->first._interval[d][1] = r->second._interval[d][0] = t;
}
extern "C" void split_u_traced(std::pair<NURBSSurface, NURBSSurface> *r, const NURBSSurface *s, double t, double) { trace(r, s, 0, t); }
extern "C" void split_v_traced(std::pair<NURBSSurface, NURBSSurface> *r, const NURBSSurface *s, double t, double) { trace(r, s, 1, t); }
static void traced(const NURBSSurface &s, int u, int v, const NURBSSurface &o) {
    const char *L = "each part is split once in each direction";
    if (VC_SYM) { const int t = s._degree[0]; vc_check(t == u * 10 + v || t == v * 10 + u, L); return; }
    NURBSSurface h = u == 1 ? o.split_surface_u(mid.u).first : o.split_surface_u(mid.u).second, g = v == 3 ? h.split_surface_v(mid.v).first : h.split_surface_v(mid.v).second;
    same(s._knots_u, g._knots_u, L); same(s._knots_v, g._knots_v, L); vc_check(s._size == g._size, L);
    for (size_t i = 0; i < g._size[0]; ++i) same(s._control_points[i], g._control_points[i], L);
}
VC_HARNESS(surface_subdivide) {
    const int how = (int)vc_enum("how", 0, 3);
    NURBSSurface &s = *new NURBSSurface;
    s._interval[0] = {vc_real("a", -8, 0), vc_real("b", 1, 8)}; s._interval[1] = {vc_real("c", -8, 0), vc_real("d", 1, 8)};
    if (!VC_SYM) {
        const long n = vc_int("n", 2, 5), m = vc_int("m", 2, 5);
        vc::rows(s._control_points, n, m, "P");
        s._size = {(size_t)n, (size_t)m}; s._degree = {1, (int)m - 1};
        s.generate_knots_u(); s.generate_knots_v();
    }
    const double f = vc_real("f", 0.1, 0.9), g = vc_real("g", 0.1, 0.9);
    const auto I = s._interval;
    if (how & 1) mid = {VC_SYM ? f : I[0][0] + f * (I[0][1] - I[0][0]), VC_SYM ? g : I[1][0] + g * (I[1][1] - I[1][0])};
    else mid = {0.5 * (I[0][0] + I[0][1]), 0.5 * (I[1][0] + I[1][1])};
    auto &r = *new std::array<NURBSSurface, 4>;
    switch (how) {
    case 0: r = s.subdivide(); break;
    case 1: r = s.subdivide(mid.u, mid.v); break;
    case 2: s.subdivide(r[0], r[1], r[2], r[3]); break;
    case 3: s.subdivide(r[0], r[1], r[2], r[3], mid.u, mid.v); break;
    }
    for (int i = 0; i < 4; ++i) traced(r[i], 1 + i / 2, 3 + i % 2, s);
}
