#include "vc.h"
#include "cmmcore/vec.h"
using namespace cmmcore;
static const double EPS = std::numeric_limits<double>::epsilon();
static vec2 v2(const char *n) { double x = vc_real(n, -8, 8), y = vc_real(n, -8, 8); return vec2(x, y); }
static vec3 v3(const char *n) { double x = vc_real(n, -8, 8), y = vc_real(n, -8, 8), z = vc_real(n, -8, 8); return vec3(x, y, z); }
static vec4 v4(const char *n) { double x = vc_real(n, -8, 8), y = vc_real(n, -8, 8), z = vc_real(n, -8, 8), w = vc_real(n, -8, 8); return vec4(x, y, z, w); }
#define EQ3(r, X, Y, Z, what) do { vc_check_eq((r).x, (X), what); vc_check_eq((r).y, (Y), what); vc_check_eq((r).z, (Z), what); } while (0)
#define EQ4(r, X, Y, Z, W, what) do { EQ3(r, X, Y, Z, what); vc_check_eq((r).w, (W), what); } while (0)

VC_HARNESS(vec2_algebra) {
    vec2 a = v2("a"), b = v2("b");
    double s = vc_real("s", -8, 8);
    vec2 d = a - b, n = -a, m = a * b, k = a * s;
    vc_check_eq(d.x, a.x - b.x, "difference"); vc_check_eq(d.y, a.y - b.y, "difference");
    vc_check_eq(n.x, -a.x, "negation"); vc_check_eq(n.y, -a.y, "negation");
    vc_check_eq(m.x, a.x * b.x, "product"); vc_check_eq(m.y, a.y * b.y, "product");
    vc_check_eq(k.x, a.x * s, "scaling"); vc_check_eq(k.y, a.y * s, "scaling");
    vec2 p = a; p += b; vec2 q = a; q -= b;
    vc_check_eq(p.x, a.x + b.x, "sum"); vc_check_eq(p.y, a.y + b.y, "sum");
    vc_check_eq(q.x, a.x - b.x, "difference in place"); vc_check_eq(q.y, a.y - b.y, "difference in place");
    vc_check_eq(a.dot(b), a.x * b.x + a.y * b.y, "dot"); vc_check_eq(dot(a, b), a.x * b.x + a.y * b.y, "dot");
    vc_check_eq(cross(a, b), a.x * b.y - a.y * b.x, "cross");
    vc_check_eq(a.sqLength(), a.x * a.x + a.y * a.y, "squared length");
    vc_check_eq(a.distanceSq(b), (a.x - b.x) * (a.x - b.x) + (a.y - b.y) * (a.y - b.y), "squared distance");
    vc_check_eq(a[0], a.x, "component"); vc_check_eq(a[1], a.y, "component");
    a[0] = s; a[1] = b.x; vc_check_eq(a.x, s, "component store"); vc_check_eq(a.y, b.x, "component store");
    vec2 f(a, b); vc_check_eq(f.x, b.x - a.x, "vector between points"); vc_check_eq(f.y, b.y - a.y, "vector between points");
    vc_assume(s > 0.01 || s < -0.01);
    vec2 g = b; g /= s; vc_check_eq(g.x, b.x / s, "division"); vc_check_eq(g.y, b.y / s, "division");
}
VC_HARNESS(vec2_metric) {
    vec2 a = v2("a"), b = v2("b");
    double l = a.length();
    vc_check_le(0, l, "length is nonnegative"); vc_check_eq(l * l, a.x * a.x + a.y * a.y, "length");
    double d = a.distance(b);
    vc_check_le(0, d, "distance is nonnegative"); vc_check_eq(d * d, (a.x - b.x) * (a.x - b.x) + (a.y - b.y) * (a.y - b.y), "distance");
    vc_assume(b.x != 0 || b.y != 0);
    vec2 p = a.project(b);
    vc_check_eq(p.x * b.y, p.y * b.x, "projection is along the axis");
    vc_check_eq((a.x - p.x) * b.x + (a.y - p.y) * b.y, 0, "projection leaves an orthogonal rest");
    vc_check_eq(a.projection(b) * (b.x * b.x + b.y * b.y), a.x * b.x + a.y * b.y, "projection coefficient");
    vec2 u = b.unit();
    vc_check_eq(u.x * u.x + u.y * u.y, 1, "unit length");
    vc_check_eq(u.x * b.y, u.y * b.x, "same direction"); vc_check_le(0, u.x * b.x + u.y * b.y, "same orientation");
    vec2 t = b; t.unitize();
    vc_check_eq(t.x, u.x, "unitize"); vc_check_eq(t.y, u.y, "unitize");
}
VC_HARNESS(vec3_algebra) {
    vec3 a = v3("a"), b = v3("b");
    double s = vc_real("s", -8, 8);
    EQ3(a - b, a.x - b.x, a.y - b.y, a.z - b.z, "difference");
    EQ3(a + b, a.x + b.x, a.y + b.y, a.z + b.z, "sum");
    EQ3(-a, -a.x, -a.y, -a.z, "negation");
    EQ3(a * s, a.x * s, a.y * s, a.z * s, "scaling"); EQ3(s * a, a.x * s, a.y * s, a.z * s, "scaling");
    EQ3(a * b, a.x * b.x, a.y * b.y, a.z * b.z, "product");
    vec3 r(7, 7, 7);
    a.sub(b, r); EQ3(r, a.x - b.x, a.y - b.y, a.z - b.z, "difference to output");
    a.add(b, r); EQ3(r, a.x + b.x, a.y + b.y, a.z + b.z, "sum to output");
    r = a; r += b; EQ3(r, a.x + b.x, a.y + b.y, a.z + b.z, "sum in place");
    r = a; r -= b; EQ3(r, a.x - b.x, a.y - b.y, a.z - b.z, "difference in place");
    r = a; r *= s; EQ3(r, a.x * s, a.y * s, a.z * s, "scaling in place");
    r.set(b); EQ3(r, b.x, b.y, b.z, "set"); r.set(s, b.z, a.x); EQ3(r, s, b.z, a.x, "set");
    const double dt = a.x * b.x + a.y * b.y + a.z * b.z;
    vc_check_eq(a.dot(b), dt, "dot"); vc_check_eq(dot(a, b), dt, "dot"); vc_check_eq(a.dot(b.x, b.y, b.z), dt, "dot");
    EQ3(a.cross(b), a.y * b.z - a.z * b.y, a.z * b.x - a.x * b.z, a.x * b.y - a.y * b.x, "cross");
    a.cross(b, r); EQ3(r, a.y * b.z - a.z * b.y, a.z * b.x - a.x * b.z, a.x * b.y - a.y * b.x, "cross to output");
    vec4 h; cross(a, b, h); EQ4(h, a.y * b.z - a.z * b.y, a.z * b.x - a.x * b.z, a.x * b.y - a.y * b.x, 1, "cross as a homogeneous point");
    const double dd = (a.x - b.x) * (a.x - b.x) + (a.y - b.y) * (a.y - b.y) + (a.z - b.z) * (a.z - b.z);
    vc_check_eq(a.sqLength(), a.x * a.x + a.y * a.y + a.z * a.z, "squared length"); vc_check_eq(mag2(a), a.x * a.x + a.y * a.y + a.z * a.z, "squared length");
    vc_check_eq(a.distanceSq(b), dd, "squared distance"); vc_check_eq(dist2(a, b), dd, "squared distance");
    double c0, c1, c2; assign(a, c0, c1, c2); vc_check_eq(c0, a.x, "assign"); vc_check_eq(c1, a.y, "assign"); vc_check_eq(c2, a.z, "assign");
    const vec3 ac = a; vc_check_eq(ac[0], a.x, "component"); vc_check_eq(ac[1], a.y, "component"); vc_check_eq(ac[2], a.z, "component");
    a[0] = s; a[1] = b.z; a[2] = b.y; EQ3(a, s, b.z, b.y, "component store");
    vc_assume(s > 0.01 || s < -0.01);
    EQ3(b / s, b.x / s, b.y / s, b.z / s, "division"); r = b; r /= s; EQ3(r, b.x / s, b.y / s, b.z / s, "division in place");
    vc_assume(b.x > 0.01 && b.y > 0.01 && b.z > 0.01);
    EQ3(ac / b, ac.x / b.x, ac.y / b.y, ac.z / b.z, "quotient");
}
VC_HARNESS(vec3_metric) {
    vec3 a = v3("a"), b = v3("b");
    double l = a.length();
    vc_check_le(0, l, "length is nonnegative"); vc_check_eq(l * l, a.x * a.x + a.y * a.y + a.z * a.z, "length");
    const double dd = (a.x - b.x) * (a.x - b.x) + (a.y - b.y) * (a.y - b.y) + (a.z - b.z) * (a.z - b.z);
    double d = a.distance(b);
    vc_check_le(0, d, "distance is nonnegative"); vc_check_eq(d * d, dd, "distance");
    d = dist(a, b);
    vc_check_le(0, d, "distance is nonnegative"); vc_check_eq(d * d, dd, "distance");
}
VC_HARNESS(vec3_projection) {
    vec3 a = v3("a"), b = v3("b");
    vc_assume(b.x * b.x + b.y * b.y + b.z * b.z > 0.01);
    for (int k = 0; k < 3; ++k) {
        vec3 p(0, 0, 0);
        if (k == 0) p = a.project(b); else if (k == 1) vectorProjection(a, b, p); else p = vectorProjection(a, b);
        EQ3(p.cross(b), 0, 0, 0, "projection is along the axis");
        vc_check_eq((a.x - p.x) * b.x + (a.y - p.y) * b.y + (a.z - p.z) * b.z, 0, "projection leaves an orthogonal rest");
    }
}
VC_HARNESS(vec3_unit) {
    vec3 b = v3("b");
    const double scale = vc_int("tiny", 0, 3) == 3 ? 0x1p-28 : 1;     // natively: vectors of any magnitude
    if (!VC_SYM) b *= scale;
    vc_assume(b.x * b.x + b.y * b.y + b.z * b.z > 1e-20);
    vec3 u = b.unit();
    // the code leaves a vector alone whose length is one up to the machine epsilon
    const double q = u.x * u.x + u.y * u.y + u.z * u.z;
    vc_check_le(q, 1 + 1e-15, "unit length"); vc_check_le(1 - 1e-15, q, "unit length");
    vc_check_eq(u.x * b.y, u.y * b.x, "same direction"); vc_check_eq(u.y * b.z, u.z * b.y, "same direction"); vc_check_eq(u.x * b.z, u.z * b.x, "same direction");
    vc_check_le(0, u.x * b.x, "same orientation"); vc_check_le(0, u.y * b.y, "same orientation"); vc_check_le(0, u.z * b.z, "same orientation");
    vec3 t = b; t.unitize(); EQ3(t, u.x, u.y, u.z, "unitize");
    t = b; t.normalize(); EQ3(t, u.x, u.y, u.z, "normalize");
}
VC_HARNESS(vec4_algebra) {
    vec4 a = v4("a"), b = v4("b");
    double s = vc_real("s", -8, 8);
    EQ4(a - b, a.x - b.x, a.y - b.y, a.z - b.z, a.w - b.w, "difference");
    EQ4(a + b, a.x + b.x, a.y + b.y, a.z + b.z, a.w + b.w, "sum");
    EQ4(-a, -a.x, -a.y, -a.z, -a.w, "negation");
    EQ4(a * s, a.x * s, a.y * s, a.z * s, a.w * s, "scaling");
    EQ4(a * b, a.x * b.x, a.y * b.y, a.z * b.z, a.w * b.w, "product");
    vec4 r(7, 7, 7, 7);
    a.sub(b, r); EQ4(r, a.x - b.x, a.y - b.y, a.z - b.z, a.w - b.w, "difference to output");
    a.add(b, r); EQ4(r, a.x + b.x, a.y + b.y, a.z + b.z, a.w + b.w, "sum to output");
    r = a; r += b; EQ4(r, a.x + b.x, a.y + b.y, a.z + b.z, a.w + b.w, "sum in place");
    r = a; r -= b; EQ4(r, a.x - b.x, a.y - b.y, a.z - b.z, a.w - b.w, "difference in place");
    r.set(b); EQ4(r, b.x, b.y, b.z, b.w, "set"); r.set(s, b.z, a.x, a.w); EQ4(r, s, b.z, a.x, a.w, "set");
    r.set(vec3(s, a.x, b.y)); EQ4(r, s, a.x, b.y, 1, "set from a point");
    vc_check_eq(a.dot(b), a.x * b.x + a.y * b.y + a.z * b.z + a.w * b.w, "dot");
    EQ4(a.cross(b), a.y * b.z - a.z * b.y, a.z * b.x - a.x * b.z, a.x * b.y - a.y * b.x, 1, "cross");
    vc_check_eq(a.sqLength(), a.x * a.x + a.y * a.y + a.z * a.z + a.w * a.w, "squared length");
    vc_check_eq(a.distanceSq(b), (a - b).sqLength(), "squared distance");
    const vec4 ac = a; for (int i = 0; i < 4; ++i) vc_check_eq(ac[i], i == 0 ? a.x : i == 1 ? a.y : i == 2 ? a.z : a.w, "component");
    a[0] = s; a[1] = b.z; a[2] = b.y; a[3] = b.x; EQ4(a, s, b.z, b.y, b.x, "component store");
    double l = ac.length(), d = ac.distance(b);
    vc_check_le(0, l, "length is nonnegative"); vc_check_eq(l * l, ac.sqLength(), "length");
    vc_check_le(0, d, "distance is nonnegative"); vc_check_eq(d * d, ac.distanceSq(b), "distance");
    vc_assume(s > 0.01 || s < -0.01);
    EQ4(b / s, b.x / s, b.y / s, b.z / s, b.w / s, "division");
    vc_assume(b.x > 0.01 && b.y > 0.01 && b.z > 0.01 && b.w > 0.01);
    EQ4(ac / b, ac.x / b.x, ac.y / b.y, ac.z / b.z, ac.w / b.w, "quotient");
}
VC_HARNESS(vec4_projective) {
    vec4 a = v4("a"), b = v4("b");
    vec3 c = v3("c");
    vc_assume(a.w > 0.01 || a.w < -0.01); vc_assume(b.w > 0.01 || b.w < -0.01);
    const vec3 p(a.x / a.w, a.y / a.w, a.z / a.w), q(b.x / b.w, b.y / b.w, b.z / b.w);
    EQ3(a.to_vec3(), p.x, p.y, p.z, "projected point");
    vec3 o(7, 7, 7); a.to_vec3(o); EQ3(o, p.x, p.y, p.z, "projected point to output");
    vec4 r(7, 7, 7, 7); a.cross(b, r);
    EQ4(r, p.y * q.z - p.z * q.y, p.z * q.x - p.x * q.z, p.x * q.y - p.y * q.x, 1, "cross of the projected points");
    EQ3(a.cross(c), p.y * c.z - p.z * c.y, p.z * c.x - p.x * c.z, p.x * c.y - p.y * c.x, "cross with a vector");
    a.cross(c, o); EQ3(o, p.y * c.z - p.z * c.y, p.z * c.x - p.x * c.z, p.x * c.y - p.y * c.x, "cross with a vector to output");
}
VC_HARNESS(vec_equality) {
    vec2 a = v2("a"), b = v2("b");
    vec3 c = v3("c"), d = v3("d");
    vec4 e = v4("e"), f = v4("f");
    if (!VC_SYM) { int k = (int)vc_int("same", 0, 7); if (k & 1) b = a; if (k & 2) d = c; if (k & 4) f = e; }
    vc_check(a == a, "equal to itself"); vc_check(c == c, "equal to itself"); vc_check(e == e, "equal to itself");
    if (a == b) { vc_check_le(fabs(a.x - b.x), EPS, "equal vectors have equal components"); vc_check_le(fabs(a.y - b.y), EPS, "equal vectors have equal components"); }
    if (c == d) for (int i = 0; i < 3; ++i) vc_check_le(fabs(c[i] - d[i]), EPS, "equal vectors have equal components");
    if (e == f) for (int i = 0; i < 4; ++i) vc_check_le(fabs(e[i] - f[i]), EPS, "equal vectors have equal components");
}
VC_HARNESS(dot_products) {
    const long n = vc_int("n", 0, 100000);
    std::vector<double> x, y, z, r, r0;
    vc::reals(x, n, "x"); vc::reals(y, n, "y"); vc::reals(z, n, "z"); vc::reals(r, n + 1, "r"); r0 = r;
    vec3 v = v3("v");
    Vectors3 V{(size_t)n, x.data(), y.data(), z.data()};
    dot_product(v, V, r.data());
    VC_FORALL(i, 0, n) vc_check_eq(r[i], v.x * x[i] + v.y * y[i] + v.z * z[i], "dot products of an array");
    vc_check_eq(r[n], r0[n], "nothing is written past the last result");
}
