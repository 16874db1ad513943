#include "vc.h"
#include <algorithm>
#include <numeric>
#include <new>
#include "cmmcore/nurbs.h"
using namespace cmmcore;
// std::unordered_set<double>::insert (libc++, trusted to keep one copy of each value): the new node goes to the front of the list
struct Node { Node *next; size_t hash; double value; };
struct Table { void *buckets; size_t count; Node *first; size_t size; float load; };
struct Inserted { Node *at; bool fresh; };
extern "C" Inserted hash_insert_model(Table *t, const double *x) {
    for (Node *n = t->first; n; n = n->next) if (n->value == *x) return {n, false};
    Node *n = (Node *)operator new(sizeof(Node));
    n->next = t->first; n->hash = 0; n->value = *x;
    t->first = n; ++t->size;
    return {n, true};
}
// sorted knots made of runs: values x_0 < x_1 < ..., each repeated c_i times
static const long NRUN = 4;
static std::vector<double> &runs(std::vector<double> &x, long least) {
    const long r = vc_enum("runs", least, NRUN);
    vc::reals(x, r, "x", -8, 8, vc::SORTED);
    for (long i = 1; i < r; ++i) { if (!VC_SYM) x[i] = std::max(x[i], x[i - 1] + 0.25); vc_assume(x[i - 1] + 1e-7 < x[i]); }
    auto &U = *new std::vector<double>;
    for (long i = 0; i < r; ++i) { const long c = vc_enum("c", 1, 2); for (long j = 0; j < c; ++j) U.push_back(x[i]); }
    return U;
}
VC_HARNESS(unique_knots) {
    auto &x = *new std::vector<double>, &y = *new std::vector<double>;
    auto &U = runs(x, 1);
    auto &V = *new std::vector<double>(U);
    uniqueKnots(U, y);
    vc_check(y.size() == x.size(), "each knot value once");
    for (size_t i = 0; i < x.size(); ++i) vc_check_eq(y[i], x[i], "each knot value once");
    for (size_t i = 0; i < V.size(); ++i) vc_check_eq(U[i], V[i], "the knots are kept");
}
VC_HARNESS(knot_multiplicities) {
    auto &x = *new std::vector<double>, &y = *new std::vector<double>; auto &c = *new std::vector<int>;
    auto &U = runs(x, 1);
    if (vc_enum("used", 0, 1)) { y.push_back(7); c.push_back(7); }
    getKnotMultiplicities(U, y, c);
    vc_check(y.size() == x.size() && c.size() == x.size(), "each knot value once");
    size_t k = 0;
    for (size_t i = 0; i < x.size(); ++i) {
        vc_check_eq(y[i], x[i], "each knot value once");
        int m = 0;
        while (k < U.size() && U[k] == x[i]) { ++k; ++m; }
        vc_check(c[i] == m, "multiplicity");
    }
}
// splits leave a trace: a part covers [_interval] and counts its splits
extern "C" void curve_split_traced(std::pair<NURBSCurve, NURBSCurve> *r, const NURBSCurve *c, double t, bool) {
    vc_check_lt(c->_interval[0], t, "callee: split inside the domain"); vc_check_lt(t, c->_interval[1], "callee: split inside the domain");
    new (r) std::pair<NURBSCurve, NURBSCurve>;
    r->first._degree = r->second._degree = c->_degree; r->first.knots = r->second.knots = c->knots;
    r->first._interval[0] = c->_interval[0]; r->first._interval[1] = r->second._interval[0] = t; r->second._interval[1] = c->_interval[1];
}
VC_HARNESS(curve_decompose) {
    auto &x = *new std::vector<double>;
    auto &U = runs(x, 2);
    NURBSCurve &c = *new NURBSCurve;
    c._degree = 1;
    if (!VC_SYM) {
        c._degree = vc_int("p", 1, 3);
        std::vector<double> V;
        for (double k : U) if (k > x[0] && k < x.back()) V.push_back(k);
        U = V; for (int i = 0; i <= c._degree; ++i) { U.insert(U.begin(), x[0]); U.push_back(x.back()); }
        std::vector<double> W; int m = 0;
        for (double k : U) { m = !W.empty() && W.back() == k ? m + 1 : 1; if (m <= c._degree || k == x[0] || k == x.back()) W.push_back(k); }
        U = W;
        vc::reals(c.control_points, (long)U.size() - c._degree - 1, "P");
        for (auto &q : c.control_points) q.w = fabs(q.w) + 0.5;
    }
    c.knots = U; c._interval[0] = x[0]; c._interval[1] = x[x.size() - 1];
    auto &r = *new std::vector<NURBSCurve>;
    c.decompose(r);
    vc_check(r.size() == x.size() - 1, "one piece between any two knots");
    for (size_t i = 0; i + 1 < x.size(); ++i) {
        vc_check_eq(r[i]._interval[0], x[i], "pieces in order, from knot to knot"); vc_check_eq(r[i]._interval[1], x[i + 1], "pieces in order, from knot to knot");
        vc_check(r[i]._degree == c._degree, "degree");
        if (!VC_SYM) {
            const double t = x[i] + (x[i + 1] - x[i]) * vc_real("t", 0.01, 0.99); vec3 a, b;
            c.evaluate(t, a); r[i].evaluate(t, b);
            vc_check((long)r[i].control_points.size() == c._degree + 1, "pieces in order, from knot to knot");
            for (int e = 0; e < 3; ++e) vc_check_eq(a[e], b[e], "pieces in order, from knot to knot");
        }
    }
}
static void strace(std::pair<NURBSSurface, NURBSSurface> *r, const NURBSSurface *s, double t, int d) {
    vc_check_lt(s->_interval[d][0], t, "callee: split inside the domain"); vc_check_lt(t, s->_interval[d][1], "callee: split inside the domain");
    new (r) std::pair<NURBSSurface, NURBSSurface>;
    for (auto *q : {&r->first, &r->second}) {
        q->_degree = s->_degree; q->_size = s->_size; q->_interval = s->_interval;
        q->_knots_u = s->_knots_u; q->_knots_v = s->_knots_v;
        auto &K = d ? q->_knots_v : q->_knots_u; const auto &L = d ? s->_knots_v : s->_knots_u;
        std::vector<double> N;
        if (q == &r->second) N.push_back(t);
        for (double k : L) if (q == &r->first ? k < t : k > t) N.push_back(k);
        if (q == &r->first) N.push_back(t);
        K = N;
    }
    r->first._interval[d][1] = r->second._interval[d][0] = t;
}
extern "C" void surface_split_u_traced(std::pair<NURBSSurface, NURBSSurface> *r, const NURBSSurface *s, double t, double) { strace(r, s, t, 0); }
extern "C" void surface_split_v_traced(std::pair<NURBSSurface, NURBSSurface> *r, const NURBSSurface *s, double t, double) { strace(r, s, t, 1); }
VC_HARNESS(surface_decompose) {
    const int how = (int)vc_enum("how", 0, 2);         // in u, in v, in both directions
    const long a = vc_enum("a", 2, how == 2 ? 3 : 4), b = vc_enum("b", 2, how == 2 ? 3 : 4);
    auto &x = *new std::vector<double>, &y = *new std::vector<double>;
    vc::reals(x, a, "x", -8, 8, vc::SORTED); vc::reals(y, b, "y", -8, 8, vc::SORTED);
    for (auto *z : {&x, &y}) for (size_t i = 1; i < z->size(); ++i) { if (!VC_SYM) (*z)[i] = std::max((*z)[i], (*z)[i - 1] + 0.25); vc_assume((*z)[i - 1] + 1e-6 < (*z)[i]); }
    NURBSSurface &s = *new NURBSSurface;
    s._degree = {1, 1}; s._size = {(size_t)a, (size_t)b};
    s._knots_u = x; s._knots_u.insert(s._knots_u.begin(), x[0]); s._knots_u.push_back(x[a - 1]);
    s._knots_v = y; s._knots_v.insert(s._knots_v.begin(), y[0]); s._knots_v.push_back(y[b - 1]);
    if (!VC_SYM) {
        vc::rows(s._control_points, a, b, "P");
        for (auto &r : s._control_points) for (auto &c : r) c.w = fabs(c.w) + 0.5;
    }
    s._interval[0] = {x[0], x[a - 1]}; s._interval[1] = {y[0], y[b - 1]};
    auto &r = *new std::vector<NURBSSurface>;
    if (how == 0) s.decompose(SurfaceParameter::U, r); else if (how == 1) s.decompose(SurfaceParameter::V, r); else s.decompose(r);
    const long nu = how == 1 ? 1 : a - 1, nv = how == 0 ? 1 : b - 1;
    vc_check((long)r.size() == nu * nv, "one patch for each pair of spans");
    // the patches come span by span in u, and within these span by span in v
    for (long i = 0; i < nu; ++i) for (long j = 0; j < nv; ++j) {
        const NURBSSurface &q = r[i * nv + j];
        vc_check_eq(q._interval[0][0], x[how == 1 ? 0 : i], "patches in order, from knot to knot"); vc_check_eq(q._interval[0][1], x[how == 1 ? a - 1 : i + 1], "patches in order, from knot to knot");
        vc_check_eq(q._interval[1][0], y[how == 0 ? 0 : j], "patches in order, from knot to knot"); vc_check_eq(q._interval[1][1], y[how == 0 ? b - 1 : j + 1], "patches in order, from knot to knot");
        if (!VC_SYM) {
            const double f = vc_real("f", 0.01, 0.99), g = vc_real("g", 0.01, 0.99); vec3 c, d;
            const double u = q._interval[0][0] + f * (q._interval[0][1] - q._interval[0][0]), v = q._interval[1][0] + g * (q._interval[1][1] - q._interval[1][0]);
            s.evaluate(u, v, c); q.evaluate(u, v, d);
            for (int e = 0; e < 3; ++e) vc_check_eq(c[e], d[e], "patches in order, from knot to knot");
        }
    }
}
