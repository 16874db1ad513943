// Mathematical reference definitions used by the contracts (independent of /repo).
#pragma once
#include <vector>
#include <array>
namespace ref {
// truncated Taylor series in one variable (exact derivatives of rational functions by definition)
template<int K> struct Jet {
    double c[K + 1];
    Jet(double v = 0) { c[0] = v; for (int i = 1; i <= K; ++i) c[i] = 0; }
    static Jet var(double v) { Jet j(v); if (K >= 1) j.c[1] = 1; return j; }
    // value of the k-th derivative
    double d(int k) const { double f = 1; for (int i = 2; i <= k; ++i) f *= i; return c[k] * f; }
};
template<int K> inline Jet<K> operator+(const Jet<K> &a, const Jet<K> &b) { Jet<K> r; for (int i = 0; i <= K; ++i) r.c[i] = a.c[i] + b.c[i]; return r; }
template<int K> inline Jet<K> operator-(const Jet<K> &a, const Jet<K> &b) { Jet<K> r; for (int i = 0; i <= K; ++i) r.c[i] = a.c[i] - b.c[i]; return r; }
template<int K> inline Jet<K> operator*(const Jet<K> &a, const Jet<K> &b) {
    Jet<K> r;
    for (int i = 0; i <= K; ++i) { double s = 0; for (int j = 0; j <= i; ++j) s += a.c[j] * b.c[i - j]; r.c[i] = s; }
    return r;
}
template<int K> inline Jet<K> operator/(const Jet<K> &a, const Jet<K> &b) {
    Jet<K> r;
    for (int i = 0; i <= K; ++i) { double s = a.c[i]; for (int j = 0; j < i; ++j) s -= r.c[j] * b.c[i - j]; r.c[i] = s / b.c[0]; }
    return r;
}
template<int K> inline Jet<K> operator/(const Jet<K> &a, double b) { Jet<K> r; for (int i = 0; i <= K; ++i) r.c[i] = a.c[i] / b; return r; }
template<int K> inline Jet<K> operator*(const Jet<K> &a, double b) { Jet<K> r; for (int i = 0; i <= K; ++i) r.c[i] = a.c[i] * b; return r; }
template<int K> inline Jet<K> operator-(const Jet<K> &a, double b) { Jet<K> r = a; r.c[0] -= b; return r; }
template<int K> inline Jet<K> operator-(double b, const Jet<K> &a) { Jet<K> r; for (int i = 1; i <= K; ++i) r.c[i] = -a.c[i]; r.c[0] = b - a.c[0]; return r; }

// Cox-de Boor: the p+1 basis functions that do not vanish on the span [U_k, U_{k+1}), at u
template<class T> inline void basis(const std::vector<double> &U, int k, int p, const T &u, T *B) {
    B[0] = T(1.0);
    for (int j = 1; j <= p; ++j) {
        T C[10];
        for (int r = 0; r <= j; ++r) {
            const int i = k - j + r;
            T v(0.0);
            if (r > 0) v = v + (u - U[i]) / (U[i + j] - U[i]) * B[r - 1];
            if (r < j) v = v + (U[i + j + 1] - u) / (U[i + j + 1] - U[i + 1]) * B[r];
            C[r] = v;
        }
        for (int r = 0; r <= j; ++r) B[r] = C[r];
    }
}
}
