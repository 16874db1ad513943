// Native runtime of the specification intrinsics: replays recorded inputs, or draws
// small well-conditioned inputs, against the really compiled code.
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <cmath>
#include <string>
#include <vector>
#include <algorithm>
#include <csetjmp>
#include <csignal>
#include <exception>
#include <map>
#include <set>
#include <unistd.h>
#include <dlfcn.h>
namespace {
struct Rej {};
struct Fail { std::string label; };
bool replay = false;
std::vector<std::string> lines;
size_t pos = 0;
std::vector<std::string> rec;
unsigned long long rng = 88172645463325252ull;
double tol = 1e-6;
std::string failed;
char detail[400];
std::set<std::string> reached;
std::map<std::string, std::pair<long, long>> restrict_;
unsigned long long rnd() { rng ^= rng << 13; rng ^= rng >> 7; rng ^= rng << 17; return rng; }
double unit() { return (rnd() >> 11) * (1.0 / 9007199254740992.0); }
double nice(double lo, double hi) {
    if (!(lo < hi)) return lo;
    int k = rnd() % 8;
    if (k == 0) return lo;
    if (k == 1) return hi;
    double x = lo + (hi - lo) * unit();
    if (k < 6) { // dyadic
        double s = (hi - lo) > 4 ? 1.0 : (hi - lo) / 16.0;
        if (k == 5) s /= 4;
        double y = std::round(x / s) * s;
        if (y < lo) y = lo; if (y > hi) y = hi;
        return y;
    }
    return x;
}
const char *next(char k) {
    if (pos >= lines.size()) throw Rej();
    const std::string &s = lines[pos++];
    if (s.empty() || s[0] != k) { fprintf(stderr, "replay: expected %c got %s\n", k, s.c_str()); throw Rej(); }
    return s.c_str() + 1;
}
void record(char k, const std::string &v) { rec.push_back(std::string(1, k) + " " + v); }
std::string num(double v) { char b[64]; snprintf(b, sizeof b, "%.17g", v); return b; }
}
extern "C" {
double vc_real(const char *, double lo, double hi) {
    double v;
    if (replay) v = atof(next('r'));
    else { if (lo >= hi) { lo = -8; hi = 8; } v = nice(lo, hi); }
    record('r', num(v));
    return v;
}
long vc_int(const char *name, long lo, long hi) {
    long v;
    if (replay) v = atol(next('i'));
    else {
        auto it = restrict_.find(name);
        if (it != restrict_.end()) { lo = std::max(lo, it->second.first); hi = std::min(hi, it->second.second); }
        if (hi < lo) throw Rej();
        long span = hi - lo + 1;
        if (span > 8 && rnd() % 4) span = 8;     // prefer small instances
        if (span > 40) span = 40;
        v = lo + (long)(rnd() % (unsigned long)span);
    }
    record('i', std::to_string(v));
    return v;
}
long vc_enum(const char *n, long lo, long hi) {
    if (replay) return vc_int(n, lo, hi);
    auto it = restrict_.find(n);
    if (it != restrict_.end()) { lo = std::max(lo, it->second.first); hi = std::min(hi, it->second.second); }
    if (hi < lo) throw Rej();
    long v = lo + (long)(rnd() % (unsigned long)(hi - lo + 1));
    record('i', std::to_string(v));
    return v;
}
void vc_assume(bool c) { if (!c) throw Rej(); }
void vc_check(bool c, const char *label) {
    reached.insert(label);
    if (!c) { snprintf(detail, sizeof detail, "condition is false"); throw Fail{label}; }
}
void vc_check_eq(double a, double b, const char *label) {
    reached.insert(label);
    double s = std::max(1.0, std::max(std::fabs(a), std::fabs(b)));
    if (!(std::fabs(a - b) <= tol * s)) { snprintf(detail, sizeof detail, "%.17g != %.17g", a, b); throw Fail{label}; }
}
void vc_check_le(double a, double b, const char *label) {
    reached.insert(label);
    double s = std::max(1.0, std::max(std::fabs(a), std::fabs(b)));
    if (!(a <= b + tol * s)) { snprintf(detail, sizeof detail, "not %.17g <= %.17g", a, b); throw Fail{label}; }
}
void vc_check_lt(double a, double b, const char *label) { vc_check_le(a, b, label); }
static void handover(void *vec, long n, long d, const std::vector<double> &v) {
    std::string s = std::to_string(v.size());
    for (double x : v) s += " " + num(x);
    record('a', s);
    // a vector of elements that are d doubles wide: raw storage handed over to the std::vector
    double *p = n ? (double *)::operator new(n * d * sizeof(double)) : nullptr;
    if (n) memcpy(p, v.data(), n * d * sizeof(double));
    void **o = (void **)vec;
    if (o[0]) ::operator delete(o[0]);
    o[0] = p; o[1] = p + n * d; o[2] = p + n * d;
}
void vc_sym_vec(void *vec, long n, long d, const char *, double lo, double hi, long flags) {
    std::vector<double> v;
    if (replay) {
        char *p = (char *)next('a');
        long c = strtol(p, &p, 10);
        for (long i = 0; i < c; i++) v.push_back(strtod(p, &p));
        if (c != n * d) throw Rej();
    } else {
        if (lo >= hi) { lo = -8; hi = 8; }
        if (n < 0) throw Rej();
        for (long i = 0; i < n * d; i++) v.push_back(nice(lo, hi));
        if (flags & 1) {
            std::sort(v.begin(), v.end());
            if (rnd() % 3) { // spread out: well separated knots with some repetitions
                double x = lo, st = (hi - lo) / (n * d + 1);
                for (auto &y : v) { if (rnd() % 4) x += st; y = x; }
            }
        }
    }
    handover(vec, n, d, v);
}
void vc_sym_vec_in(void *vec, long n, long d, const char *, const double *lo, const double *hi) {
    std::vector<double> v;
    if (replay) {
        char *p = (char *)next('a');
        long c = strtol(p, &p, 10);
        for (long i = 0; i < c; i++) v.push_back(strtod(p, &p));
        if (c != n * d) throw Rej();
        for (long i = 0; i < c; i++) if (!(lo[i % d] <= v[i] && v[i] <= hi[i % d])) throw Rej();
    } else {
        if (n < 0) throw Rej();
        for (long i = 0; i < n * d; i++) v.push_back(nice(lo[i % d], hi[i % d]));
    }
    handover(vec, n, d, v);
}
void vc_row_weights(void *vv, double lo, double hi) {
    struct E { double c[4]; };
    for (auto &r : *(std::vector<std::vector<E>> *)vv) for (auto &e : r) {
        double &w = e.c[3];
        if (!(lo <= w && w <= hi)) { if (replay) throw Rej(); w = nice(lo, hi); }
    }
}
void vc_hint_run(long, long) {}
void vc_strict(void *vec, long g, long lo, long hi) {
    auto &v = *(std::vector<double> *)vec;
    for (long i = lo; i + g < hi; i++) if (!(v.at(i) < v.at(i + g))) {
        if (replay) throw Rej();
        for (size_t j = i + g; j < v.size(); j++) v[j] += 0.5;
    }
}
void vc_sym_block(double *p, long n, const char *nm) { for (long i = 0; i < n; i++) p[i] = vc_real(nm, 0, 0); }
static double coef(const char *name, int k) {
    unsigned long long h = 1469598103934665603ull;
    for (const char *c = name; *c; ++c) h = (h ^ (unsigned char)*c) * 1099511628211ull;
    h ^= k * 0x9E3779B97F4A7C15ull; h *= 0xff51afd7ed558ccdull; h ^= h >> 33;
    return (double)(h % 1000) / 250.0 - 2.0;
}
double vc_uf1(const char *name, double x) { return coef(name, 1) * std::sin(coef(name, 2) * x + coef(name, 3)) + coef(name, 4) * x * 0.25; }
double vc_uf2(const char *name, double x, double y) { return vc_uf1(name, x + 0.37 * y) + coef(name, 5) * y; }
double vc_gen(double x) { return x; }
double vc_uf9(const char *, double, double, double, double, double, double, double, double, double) { abort(); }
void vc_quantity(const char *, double) {}
bool vc_symbolic() { return false; }
void vc_witness(const char *l) { reached.insert(l); }
void vc_dump(const char *l, double v) { if (replay) fprintf(stderr, "%s = %.17g\n", l, v); }
void vc_dumpi(const char *l, long v) { if (replay) fprintf(stderr, "%s = %ld\n", l, v); }
}
static sigjmp_buf jb;
static int lastsig;
static void onsig(int s) { lastsig = s; siglongjmp(jb, 1); }
extern "C" void __assert_fail(const char *e, const char *f, unsigned l, const char *) noexcept(true) {
    snprintf(detail, sizeof detail, "assertion %s at %s:%u", e, f, l);
    siglongjmp(jb, 2);
}
extern "C" void *__asan_region_is_poisoned(void *, size_t) __attribute__((weak));
// one execution -> 0 ok, 1 rejected, 2 property failed
static int once(void (*h)()) {
    rec.clear(); pos = 0; failed.clear();
    int sj = sigsetjmp(jb, 1);
    if (sj == 0) {
        try { h(); return 0; }
        catch (Rej &) { return 1; }
        catch (Fail &f) { failed = f.label; return 2; }
        catch (std::exception &e) { failed = "no-exception"; snprintf(detail, sizeof detail, "exception: %s", e.what()); return 2; }
        catch (...) { failed = "no-exception"; snprintf(detail, sizeof detail, "exception"); return 2; }
    }
    if (sj == 2) { failed = "no-assertion-failure"; return 2; }
    failed = "no-crash"; snprintf(detail, sizeof detail, "signal %d", lastsig);
    return 2;
}
int main(int argc, char **argv) {
    // prog harness replay FILE | prog harness search SEED COUNT SECONDS OUT [name=lo:hi ...]
    if (argc < 4) return 64;
    auto h = (void (*)())dlsym(RTLD_DEFAULT, argv[1]);
    if (!h) { fprintf(stderr, "no harness %s\n", argv[1]); return 64; }
    FILE *devnull = freopen("/dev/null", "w", stdout);
    (void)devnull;
    for (int s : {SIGSEGV, SIGBUS, SIGFPE, SIGABRT, SIGALRM}) signal(s, onsig);
    std::set_terminate([] { snprintf(detail, sizeof detail, "terminate"); siglongjmp(jb, 1); });
    if (getenv("VC_TOL")) tol = atof(getenv("VC_TOL"));
    if (std::string(argv[2]) == "replay") {
        replay = true;
        FILE *f = fopen(argv[3], "r");
        if (!f) return 64;
        char *b = nullptr; size_t c = 0;
        while (getline(&b, &c, f) > 0) {
            std::string s(b);
            while (!s.empty() && (s.back() == '\n')) s.pop_back();
            if (!s.empty() && s[0] != '#') lines.push_back(s);
        }
        alarm(20);
        int r = once(h);
        fprintf(stderr, "replay %s: %s %s %s\n", argv[1], r == 0 ? "holds" : r == 1 ? "inputs rejected" : "FAILS", failed.c_str(), r == 2 ? detail : "");
        return r;
    }
    rng ^= strtoull(argv[3], 0, 10) * 0x9E3779B97F4A7C15ull;
    for (int i = 0; i < 20; i++) rnd();
    long count = atol(argv[4]);
    double secs = atof(argv[5]);
    for (int i = 7; i < argc; i++) {
        std::string s(argv[i]); auto e = s.find('='), c = s.find(':');
        restrict_[s.substr(0, e)] = {atol(s.c_str() + e + 1), atol(s.c_str() + c + 1)};
    }
    time_t t0 = time(0);
    long acc = 0, tried = 0;
    while (acc < count && tried < count * 2000 && difftime(time(0), t0) <= secs) {
        tried++;
        alarm(10);
        int r = once(h);
        alarm(0);
        if (r == 0) acc++;
        if (r == 2) {
            FILE *o = fopen(argv[6], "w");
            fprintf(o, "# harness %s\n# failed: %s (%s)\n", argv[1], failed.c_str(), detail);
            for (auto &s : rec) fprintf(o, "%s\n", s.c_str());
            fclose(o);
            fprintf(stderr, "FAIL %s (%s) after %ld tries\n", failed.c_str(), detail, tried);
            return 2;
        }
    }
    fprintf(stderr, "OK accepted=%ld tried=%ld reached=", acc, tried);
    for (auto &s : reached) fprintf(stderr, "%s|", s.c_str());
    fprintf(stderr, "\n");
    return acc ? 0 : 1;
}
