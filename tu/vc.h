// Specification intrinsics. In the symbolic build they are interpreted by the verifier,
// in the native build (replay / reachability witness) by lvc/vcrt.cpp.
#pragma once
#include <vector>
#include <string>
extern "C" {
double vc_real(const char *name, double lo, double hi);
long vc_fork();
long vc_int(const char *name, long lo, long hi);
long vc_enum(const char *name, long lo, long hi);      // explicit case split
void vc_assume(bool c);
void vc_check(bool c, const char *label);
void vc_check_eq(double a, double b, const char *label);
void vc_check_le(double a, double b, const char *label);
void vc_check_lt(double a, double b, const char *label);
void vc_sym_vec(void *vec, long n, long doubles_per_elem, const char *name, double lo, double hi, long flags);
void vc_sym_vec_in(void *vec, long n, long doubles_per_elem, const char *name, const double *lo, const double *hi);
void vc_strict(void *vec, long gap, long lo, long hi);   // vec[i] < vec[j] for lo <= i, i + gap <= j < hi
void vc_hint_run(long a, long b);   // hint for loop invariants: something counts the iterations a..b-1
void vc_sym_rows(void *vecvec, long n, long m, long doubles_per_elem, const char *name);
void vc_row_weights(void *vecvec, double lo, double hi);   // the fourth component of every element of symbolic rows
void vc_sym_block(double *p, long n, const char *name);
double vc_uf1(const char *name, double x);
double vc_uf2(const char *name, double x, double y);
double vc_uf9(const char *name, double, double, double, double, double, double, double, double, double);   // in contracts of stubbed callees only
bool vc_symbolic();
void vc_quantity(const char *name, double value);   // hint to the prover
double vc_gen(double x);        // proof: an arbitrary real; natively: x
void vc_witness(const char *label);
void vc_dump(const char *label, double v);
void vc_dumpi(const char *label, long v);
}
#ifdef VC_SYMBOLIC
#define VC_SYM 1
#else
#define VC_SYM 0
#endif
#define VC_HARNESS(name) extern "C" void name()
// a universally quantified goal: one arbitrary index for the verifier, every index natively
#if VC_SYM
#define VC_FORALL(k, lo, hi) if (vc_fork()) for (const long k = vc_int(#k, (lo), (hi) - 1);; vc_assume(false))
#else
#define VC_FORALL(k, lo, hi) for (long k = (lo); k < (hi); ++k)
#endif
namespace vc {
// equal; natively up to rounding relative to the magnitude m of the terms involved
inline void close(double a, double b, double m, const char *l) {
    if (VC_SYM || !(m > 1)) vc_check_eq(a, b, l);
    else vc_check_eq(a / m, b / m, l);
}
enum { SORTED = 1 };
template<class V> inline void reals(V &v, long n, const char *name, double lo = -8, double hi = 8, long flags = 0) {
    vc_sym_vec(&v, n, sizeof(typename V::value_type) / sizeof(double), name, lo, hi, flags);
}
template<class V> inline void rows(V &v, long n, long m, const char *name) {
    using E = typename V::value_type::value_type;
#if VC_SYM
    vc_sym_rows(&v, n, m, sizeof(E) / sizeof(double), name);
#else
    v.resize(n);
    for (auto &r : v) vc_sym_vec(&r, m, sizeof(E) / sizeof(double), name, -8, 8, 0);
#endif
}
}
