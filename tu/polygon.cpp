#include "vc.h"
#include <algorithm>
#include <numeric>
#include <cmath>
#include "cmmcore/polygon.h"
using namespace cmmcore;
static double cross(const vec2 &a, const vec2 &b, const vec2 &c) { return (b.x - a.x) * (c.y - a.y) - (b.y - a.y) * (c.x - a.x); }
static polygon2 &poly(long n, const char *name) { auto &P = *new polygon2; vc_sym_vec(&P, n, 2, name, -8, 8, 0); return P; }
// even-odd rule: the ray to the right of p crosses the edges with one end strictly above p and the other not, which pass
// strictly to the right of p at that height
VC_HARNESS(point_in_polygon) {
    const long n = vc_enum("n", 0, 6);
    auto &P = poly(n, "P");
    const vec2 p(vc_real("x", -8, 8), vc_real("y", -8, 8));
    bool odd = false;
    for (long i = 0; i < n; ++i) {
        const vec2 &b = P[i], &a = P[(i + 1) % n];
        const vec2 &lo = a.y <= b.y ? a : b, &hi = a.y <= b.y ? b : a;
        odd ^= lo.y <= p.y && p.y < hi.y && p.x < a.x + (b.x - a.x) * (p.y - a.y) / (b.y - a.y);
    }
    const bool r = pointInPolygon2D(P, p);
    vc_check(r == odd, "even-odd rule");
}
// so the points strictly inside a triangle are inside, those strictly outside are not
VC_HARNESS(point_in_triangle) {
    auto &P = poly(3, "P");
    const vec2 p(vc_real("x", -8, 8), vc_real("y", -8, 8));
    const double A = cross(P[0], P[1], P[2]), a = cross(P[1], P[2], p), b = cross(P[2], P[0], p), c = cross(P[0], P[1], p);
    vc_assume(A > 1e-6 || A < -1e-6);
    const bool in = A > 0 ? a > 0 && b > 0 && c > 0 : a < 0 && b < 0 && c < 0, out = A > 0 ? a < 0 || b < 0 || c < 0 : a > 0 || b > 0 || c > 0;
    const bool r = pointInPolygon2D(P, p);
    if (in) vc_check(r, "inside");
    if (out) vc_check(!r, "outside");
}
// std::vector::emplace_back(x, y): appends vec2(x, y)
extern "C" vec2 &emplace2(std::vector<vec2> *v, double &&x, double &&y) { v->push_back(vec2(x, y)); return v->back(); }
VC_HARNESS(polygon_normals) {
    const long n = vc_int("n", 1, VC_SYM ? 100000 : 20), unit = vc_enum("unit", 0, 1);
    auto &P = poly(n, "P");
    std::vector<vec2> &N = *new std::vector<vec2>;
    try { polygonNormals(P, N, unit); } catch (const std::exception &) { return; }       // an edge without length has no unit normal
    vc_check((long)N.size() == n, "one normal for each edge");
    VC_FORALL(i, 0, n) {
        const vec2 &a = P[i], &b = P[i + 1 == n ? 0 : i + 1];
        const double ex = b.x - a.x, ey = b.y - a.y, l = unit ? std::sqrt(ex * ex + ey * ey) : 1;
        vc_assume(!unit || l > 1e-3);
        vc_check_eq(N[i].x * l, ey, "right-hand normal of the edge"); vc_check_eq(N[i].y * l, -ex, "right-hand normal of the edge");
    }
}

// The point test is a call whose answer is arbitrary here: it records which vertices were found inside the other polygon.
static const polygon2 *g_first; static long g_in[2]; static bool g_out[2];
extern "C" bool point_contract(const polygon2 *in, const vec2 *) {
    const bool r = vc_int("in", 0, 1); const int k = in == g_first;
    if (r) ++g_in[k]; else g_out[k] = true;
    return r;
}
static void point_contract_native(const polygon2 &in, const vec2 &p, int k) { if (pointInPolygon2D(in, p)) ++g_in[k]; else g_out[k] = true; }
static void range(const polygon2 &P, double x, double y, double &lo, double &hi) {
    lo = std::numeric_limits<double>::max(); hi = std::numeric_limits<double>::lowest();
    for (const vec2 &p : P) { const double d = p.x * x + p.y * y; lo = std::min(lo, d); hi = std::max(hi, d); }
}
VC_HARNESS(polygon_relationship) {
    const long n = vc_enum("n", 3, 4), m = vc_enum("m", 3, 4);
    auto &P = poly(n, "P"), &Q = poly(m, "Q");
    bool apart = false, touch = false;
    for (long i = 0; i < n + m; ++i) {
        const vec2 &a = i < n ? P[i] : Q[i - n], &b = i < n ? P[(i + 1) % n] : Q[(i - n + 1) % m];
        double l0, h0, l1, h1;
        range(P, -(b.y - a.y), b.x - a.x, l0, h0); range(Q, -(b.y - a.y), b.x - a.x, l1, h1);
        apart |= h0 < l1 || h1 < l0; touch |= l0 == h1 || h0 == l1;
    }
    g_first = &P; g_in[0] = g_in[1] = 0; g_out[0] = g_out[1] = false;
    const auto r = polygonRelationship2D(P, Q);
    if (!VC_SYM) {
        for (const vec2 &p : P) point_contract_native(Q, p, 0);
        for (const vec2 &q : Q) point_contract_native(P, q, 1);
    }
    const bool contained = g_in[0] == n || g_in[1] == m;
    vc_check((r == PolygonRelationship2D::DISTANCE) == apart, "apart when a normal of an edge separates them");
    vc_check((r == PolygonRelationship2D::TOUCH) == (!apart && touch && !contained), "touching when extents only touch and neither contains the other");
}
