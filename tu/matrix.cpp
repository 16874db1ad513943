#include "vc.h"
#include "cmmcore/matrix.h"
using namespace cmmcore;
static Matrix2x2 m2(const char *n) { double a = vc_real(n, -8, 8), b = vc_real(n, -8, 8), c = vc_real(n, -8, 8), d = vc_real(n, -8, 8); return Matrix2x2(a, b, c, d); }
VC_HARNESS(matrix2_algebra) {
    Matrix2x2 a = m2("a"), b = m2("b");
    const double x = vc_real("x", -8, 8), y = vc_real("y", -8, 8);
    vc_check_eq(a.det(), a[0][0] * a[1][1] - a[0][1] * a[1][0], "determinant");
    Matrix2x2 p = a * b, t = a.transpose(), e = Matrix2x2::eye(), d = Matrix2x2::fromDiag({x, y}), z;
    std::array<double, 2> v = a * std::array<double, 2>{x, y};
    for (int i = 0; i < 2; ++i) {
        vc_check_eq(v[i], a[i][0] * x + a[i][1] * y, "matrix times vector");
        for (int j = 0; j < 2; ++j) {
            vc_check_eq(p[i][j], a[i][0] * b[0][j] + a[i][1] * b[1][j], "product");
            vc_check_eq(t[i][j], a[j][i], "transpose");
            vc_check_eq(e[i][j], i == j ? 1 : 0, "identity");
            vc_check_eq(d[i][j], i == j ? (i ? y : x) : 0, "diagonal");
            vc_check_eq(z[i][j], 0, "zero");
        }
    }
    Matrix2x2 l{{x, y}, {b[0][1], a[1][1]}};
    vc_check_eq(l[0][0], x, "nested list"); vc_check_eq(l[0][1], y, "nested list"); vc_check_eq(l[1][0], b[0][1], "nested list"); vc_check_eq(l[1][1], a[1][1], "nested list");
    std::array<double, 2> r0{x, y}, r1{a[0][1], a[1][0]};
    Matrix2x2 r(r0, r1);
    for (int j = 0; j < 2; ++j) { vc_check_eq(r[0][j], r0[j], "rows"); vc_check_eq(r[1][j], r1[j], "rows"); }
}
VC_HARNESS(matrix2_inverse) {
    Matrix2x2 a = m2("a");
    const double det = a[0][0] * a[1][1] - a[0][1] * a[1][0];
    vc_assume(det > 0.01 || det < -0.01);
    Matrix2x2 b = a.inverse();
    for (int i = 0; i < 2; ++i) for (int j = 0; j < 2; ++j) {
        vc_check_eq(a[i][0] * b[0][j] + a[i][1] * b[1][j], i == j, "inverse on the right");
        vc_check_eq(b[i][0] * a[0][j] + b[i][1] * a[1][j], i == j, "inverse on the left");
    }
}
VC_HARNESS(matrix2_singular) {
    Matrix2x2 a = m2("a");
    if (!VC_SYM) { double s = vc_real("s", -2, 2); a[1][0] = s * a[0][0]; a[1][1] = s * a[0][1]; if (a[0][0] * a[1][1] - a[0][1] * a[1][0] != 0) vc_assume(false); }
    vc_assume(a[0][0] * a[1][1] - a[0][1] * a[1][0] == 0);
    bool thrown = false;
    try { a.inverse(); } catch (const std::runtime_error &) { thrown = true; }
    vc_check(thrown, "a singular matrix is refused");
    std::array<double, 2> b{vc_real("b0", -8, 8), vc_real("b1", -8, 8)}, x{};
    vc_check(!solve2x2(a, b, x), "a singular system is refused");
}
VC_HARNESS(solve2x2_solves) {
    Matrix2x2 a = m2("a");
    std::array<double, 2> b{vc_real("b0", -8, 8), vc_real("b1", -8, 8)}, x{};
    const double det = a[0][0] * a[1][1] - a[0][1] * a[1][0];
    vc_assume(det > 0.01 || det < -0.01);
    vc_check(solve2x2(a, b, x), "a regular system has a solution");
    vc_check_eq(a[0][0] * x[0] + a[0][1] * x[1], b[0], "first equation");
    vc_check_eq(a[1][0] * x[0] + a[1][1] * x[1], b[1], "second equation");
}
// dynamic matrices
static MatrixD md(long r, long c, const char *n) { MatrixD m; m.rows = r; m.cols = c; vc::reals(m.data, r * c, n); return m; }
VC_HARNESS(matrixd_product) {
    const long r = vc_enum("r", 1, 3), k = vc_enum("k", 1, 3), c = vc_enum("c", 1, 3);
    MatrixD a = md(r, k, "a"), b = md(k, c, "b");
    MatrixD p = a * b;
    vc_check(p.getRows() == (size_t)r && p.getCols() == (size_t)c && p.data.size() == (size_t)(r * c), "shape of the product");
    for (long i = 0; i < r; ++i) for (long j = 0; j < c; ++j) {
        double s = 0;
        for (long m = 0; m < k; ++m) s += a.data[i * k + m] * b.data[m * c + j];
        vc_check_eq(p(i, j), s, "product");
    }
    MatrixD t = a.transpose();
    vc_check(t.getRows() == (size_t)k && t.getCols() == (size_t)r, "shape of the transpose");
    for (long i = 0; i < r; ++i) for (long j = 0; j < k; ++j) vc_check_eq(t(j, i), a.data[i * k + j], "transpose");
    bool thrown = false;
    try { MatrixD q(k + 1, 1); a * q; } catch (const std::runtime_error &) { thrown = true; }
    vc_check(thrown, "a product of mismatched shapes is refused");
}
VC_HARNESS(matrixd_inverse) {
    const long n = vc_enum("n", 1, 3);
    MatrixD a = md(n, n, "a");
    bool ok = true;
    MatrixD b;
    try { b = a.inverse(); } catch (const std::runtime_error &) { ok = false; }
    if (ok) {
        vc_witness("inverted");
        for (long i = 0; i < n; ++i) for (long j = 0; j < n; ++j) {
            double s = 0;
            for (long m = 0; m < n; ++m) s += a.data[i * n + m] * b(m, j);
            vc_check_eq(s, i == j, "the inverse is an inverse");
        }
    } else if (n == 1) vc_check_le(fabs(a.data[0]), 1e-10, "only singular matrices are refused");
    else if (n == 2) {
        vc_check_le(fabs(a.data[0] * a.data[3] - a.data[1] * a.data[2]), 1e-10 * (fabs(a.data[0]) + fabs(a.data[1]) + fabs(a.data[2]) + fabs(a.data[3])), "only singular matrices are refused");
    }
}
