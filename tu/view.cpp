#include "vc.h"
#include <algorithm>
#include <cstdlib>
#include <cstring>
#include <functional>
#include <iostream>
#include <memory>
#include <new>
#include <numeric>
#include <sstream>
#include <stdexcept>
#include <string>
#include <typeinfo>
#include <vector>
#define private public
#include "cmmcore/memoryview.h"
#undef private
using namespace cmmcore;
using View = MemoryView<double>;
typedef long I;
static std::vector<size_t> shape(I d, I a, I b, I c) { std::vector<size_t> s; s.push_back(a); if (d > 1) s.push_back(b); if (d > 2) s.push_back(c); return s; }
static double *numbers(I n) { double *p = new double[n ? n : 1]; for (I i = 0; i < n; ++i) p[i] = vc_real("a", -8, 8); return p; }
static bool same(const std::vector<size_t> &a, const std::vector<size_t> &b) {
    bool r = a.size() == b.size();
    for (size_t i = 0; r && i < a.size(); ++i) r = a[i] == b[i];
    return r;
}
static I total(const std::vector<size_t> &s) { I t = 1; for (size_t x : s) t *= x; return t; }

// a fresh view is the buffer in row-major order; out-of-range indices and wrong numbers of indices are refused
VC_HARNESS(access) {
    const I d = vc_enum("d", 1, 3), a = vc_enum("a", 0, 3), b = vc_enum("b", 1, 3), c = vc_enum("c", 1, 3);
    const auto s = shape(d, a, b, c);
    const I n = total(s);
    double *p = numbers(n);
    View v(p, s);
    vc_check(same(v.shape(), s) && (I)v.size() == n, "shape and size");
    vc_check(v.data() == p && v.begin() == p && v.end() == p + n, "range");
    const I i = vc_int("i", 0, 4), j = vc_int("j", 0, 4), k = vc_int("k", 0, 4);
    std::vector<size_t> x{(size_t)i}; if (d > 1) x.push_back(j); if (d > 2) x.push_back(k);
    const bool in = i < a && (d < 2 || j < b) && (d < 3 || k < c);
    bool ok = true; double *e = nullptr;
    try { e = &v(x); } catch (const std::out_of_range &) { ok = false; }
    vc_check(ok == in, "refused outside");
    if (ok && in) vc_check(e == p + (d == 1 ? i : d == 2 ? i * b + j : (i * b + j) * c + k), "element");
    ok = true;
    x.push_back(0);
    try { v(x); } catch (const std::invalid_argument &) { ok = false; }
    vc_check(!ok, "wrong number of indices refused");
}
VC_HARNESS(first_index) {
    const I d = vc_enum("d", 1, 3), a = vc_enum("a", 0, 3), b = vc_enum("b", 1, 2), c = vc_enum("c", 1, 2);
    const auto s = shape(d, a, b, c);
    double *p = numbers(total(s));
    View v(p, s);
    const I i = vc_enum("i", 0, 4);
    bool ok = true;
    try {
        const View w = v[i];
        vc_check(same(w.shape(), std::vector<size_t>(s.begin() + 1, s.end())) && w.data_ == p, "shape");
        for (I j = 0; j < (d > 1 ? b : 1); ++j) for (I k = 0; k < (d > 2 ? c : 1); ++k) {
            std::vector<size_t> x, y{(size_t)i}; if (d > 1) { x.push_back(j); y.push_back(j); } if (d > 2) { x.push_back(k); y.push_back(k); }
            if (i < a) vc_check(&w(x) == &v(y), "element");
        }
    } catch (const std::out_of_range &) { ok = false; }
    vc_check(ok == (i < a), "refused outside");
}
// Python's rule for one dimension: indices start, start + step, ... before stop
struct Range { I start, step, length; };
static Range python(I n, bool hs, I start, bool he, I stop, I step) {
    if (step > 0) {
        start = !hs ? 0 : start < 0 ? (start + n < 0 ? 0 : start + n) : start > n ? n : start;
        stop = !he ? n : stop < 0 ? (stop + n < 0 ? 0 : stop + n) : stop > n ? n : stop;
        I l = 0; for (I i = 0; i < n; ++i) if (start + i * step < stop) l = i + 1;
        return {start, step, l};
    }
    start = !hs ? n - 1 : start < 0 ? (start + n < 0 ? -1 : start + n) : start > n - 1 ? n - 1 : start;
    stop = !he ? -1 : stop < 0 ? (stop + n < 0 ? -1 : stop + n) : stop > n - 1 ? n - 1 : stop;
    I l = 0; for (I i = 0; i < n; ++i) if (start + i * step > stop) l = i + 1;
    return {start, step, l};
}
static Slice any(const char *a, const char *b, bool hs, bool he, I step) {
    Slice s(0, 0, (int)step);
    s.has_start = hs; s.has_stop = he;
    if (hs) s.start = vc_int(a, -6, 6);
    if (he) s.stop = vc_int(b, -6, 6);
    return s;
}
// a view of n rows of 'rest' numbers: all rows in order, every other row, or the rows in reverse
static View rows(I n, I rest, I how, double *&p) {
    p = numbers((how == 1 ? 2 * n + 1 : n) * rest);
    if (how == 0) return View(p, {(size_t)n, (size_t)rest});
    if (how == 1) return View(p, {(size_t)n, (size_t)rest}, {(size_t)(2 * rest), 1}, rest);
    return View(p, {(size_t)n, (size_t)rest}, {(size_t)-rest, 1}, n ? (n - 1) * rest : 0);
}
VC_HARNESS(one_slice) {
    const I n = vc_enum("n", 0, 4), step = vc_enum("step", -3, 3), hs = vc_enum("hs", 0, 1), he = vc_enum("he", 0, 1), rest = vc_enum("rest", 1, 2), off = vc_enum("off", 0, 2);
    double *p;
    const View v = rows(n, rest, off, p);
    const Slice s = any("start", "stop", hs, he, step);
    bool ok = true;
    try {
        const View w = v.slice({s});
        const Range r = python(n, hs, hs ? s.start : 0, he, he ? s.stop : 0, step);
        vc_check(w.shape_.size() == 2 && (I)w.shape_[0] == r.length && (I)w.shape_[1] == rest, "shape");
        for (I i = 0; i < n; ++i) if (i < r.length && w.shape_.size() == 2 && i < (I)w.shape_[0]) for (I j = 0; j < rest; ++j)
            vc_check(&w({(size_t)i, (size_t)j}) == &v({(size_t)(r.start + i * step), (size_t)j}), "element");
    } catch (const std::invalid_argument &) { ok = false; }
    vc_check(ok == (step != 0), "a zero step is refused");
}
// a slice per dimension: single indices (counted from the end when negative) drop their dimension, the others keep it
VC_HARNESS(slices) {
    const I d = vc_enum("d", 1, 3), m = vc_enum("m", 0, 4), a = 3, b = 2, c = 2;
    const auto s = shape(d, a, b, c);
    double *p = numbers(total(s));
    const View v(p, s);
    std::vector<Slice> x;
    std::vector<I> first(3, 0), step(3, 1), length, axis;
    const I n[3] = {a, b, c};
    bool in = true;
    for (I k = 0; k < m; ++k) {
        const char *const names[4] = {"k0", "k1", "k2", "k3"};
        const I kind = vc_enum(names[k], 0, 2);
        if (k >= d) { x.push_back(Slice()); continue; }
        if (kind == 0) {
            const I i = vc_int("i", -5, 5);
            x.push_back(Slice((int)i));
            if (i < -n[k] || i >= n[k]) in = false; else first[k] = i < 0 ? i + n[k] : i;
        } else if (kind == 1) {
            x.push_back(Slice());
            length.push_back(n[k]); axis.push_back(k);
        } else {
            const I i = vc_int("i", -3, 3);
            x.push_back(k == 1 ? Slice((int)i, -6, -1) : Slice((int)i, 9));
            const Range r = k == 1 ? python(n[k], true, i, true, -6, -1) : python(n[k], true, i, true, 9, 1);
            length.push_back(r.length); axis.push_back(k); first[k] = r.start; step[k] = r.step;
        }
    }
    for (I k = m; k < d; ++k) { length.push_back(n[k]); axis.push_back(k); }
    int got = 0;
    try {
        const View w = v.slice(x);
        got = 1;
        bool r = w.shape_.size() == length.size();
        for (size_t k = 0; r && k < length.size(); ++k) r = (I)w.shape_[k] == length[k];
        if (m <= d && in) {
            vc_check(r, "shape");
            const size_t e = length.size();
            for (I i = 0; i < (e > 0 ? 3 : 1); ++i) for (I j = 0; j < (e > 1 ? 3 : 1); ++j) for (I k = 0; k < (e > 2 ? 2 : 1); ++k) {
                const I at[3] = {i, j, k};
                std::vector<size_t> y, z;
                bool inside = true;
                I q[3] = {first[0], first[1], first[2]};
                for (size_t g = 0; g < e; ++g) { y.push_back(at[g]); if (at[g] >= length[g]) inside = false; q[axis[g]] += at[g] * step[axis[g]]; }
                for (I g = 0; g < d; ++g) z.push_back(q[g]);
                if (inside && r) vc_check(&w(y) == &v(z), "element");
            }
        }
    } catch (const std::out_of_range &) { got = 2; } catch (const std::invalid_argument &) { got = 3; }
    vc_check(m <= d && in ? got == 1 : got != 1, "refused exactly outside");
}
VC_HARNESS(reshape) {
    const I a = vc_enum("a", 1, 4), b = vc_enum("b", 1, 3), how = vc_enum("how", 0, 2), x = vc_enum("x", 1, 6), y = vc_enum("y", 0, 3);
    double *p;
    View v = rows(a, b, how, p);
    const View w = v;
    std::vector<size_t> s{(size_t)x};
    if (y) s.push_back(y);
    bool ok = true;
    try { v.reshape(s); } catch (const std::invalid_argument &) { ok = false; }
    const I n = x * (y ? y : 1);
    vc_check(ok == (n == a * b && (how == 0 || a == 1)), "the same number of elements, without gaps");
    vc_check(same(v.shape_, ok ? s : w.shape_), "shape");
    if (ok) for (I k = 0; k < n && k < a * b; ++k) {
        std::vector<size_t> z{(size_t)(y ? k / y : k)};
        if (y) z.push_back(k % y);
        vc_check(&v(z) == &w({(size_t)(k / b), (size_t)(k % b)}), "row-major order kept");
    } else if (same(v.shape_, w.shape_)) for (I i = 0; i < a; ++i) for (I j = 0; j < b; ++j)
        vc_check(&v({(size_t)i, (size_t)j}) == &w({(size_t)i, (size_t)j}), "unchanged");
}
static void equal(const View &w, const View &v, const double *p, I a, I b, I n) {
    vc_check((I)w.size() == a * b && (I)v.size() == a * b, "size");
    vc_check(same(w.shape_, v.shape_), "shape");
    if (same(w.shape_, v.shape_)) for (I i = 0; i < a; ++i) for (I j = 0; j < b; ++j) {
        const double *e = &w({(size_t)i, (size_t)j});
        vc_check_eq(*e, v({(size_t)i, (size_t)j}), "element");
        bool apart = true;
        for (I k = 0; k < n; ++k) if (e == p + k) apart = false;
        vc_check(apart, "own memory");
    }
}
VC_HARNESS(copy) {
    const I a = vc_enum("a", 1, 3), b = vc_enum("b", 1, 3), how = vc_enum("how", 0, 2);
    double *p;
    const View v = rows(a, b, how, p);
    const View *w = v.copy();
    equal(*w, v, p, a, b, (how == 1 ? 2 * a + 1 : a) * b);
    delete w;
}
VC_HARNESS(round_trip) {
    const I a = vc_enum("a", 1, 3), b = vc_enum("b", 1, 3), how = vc_enum("how", 0, 2);
    double *p;
    const View v = rows(a, b, how, p);
    const std::vector<char> bytes = v.serialize();
    const View w = View::deserialize(bytes);
    equal(w, v, p, a, b, (how == 1 ? 2 * a + 1 : a) * b);
    const I cut = vc_enum("cut", 0, 2);
    if (cut) {
        bool ok = true;
        try { View::deserialize(std::vector<char>(bytes.begin(), bytes.end() - (cut == 1 ? 1 : 9 * b))); } catch (const std::invalid_argument &) { ok = false; }
        vc_check(!ok, "a shortened buffer is refused");
    }
}
