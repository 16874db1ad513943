import sys, os
sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
from mkseed import mkseed
H = 'cmmcore/'
NU = H+'nurbs_utils.h'
NB = H+'nurbs.h'
mkseed('S14', 'C02', [(NU, '''                double temp = N[r] / (right[r + 1] + left[j - r]);
                N[r] = saved + right[r + 1] * temp;
                saved = left[j - r] * temp;
            }
            N[j] = saved;''', '''                const double width = right[r + 1] + left[j - r];
                double temp = width > 1e-9 ? N[r] / width : 0.0;
                N[r] = saved + right[r + 1] * temp;
                saved = left[j - r] * temp;
            }
            N[j] = saved;''')], r'''
#include <cstdio>
#include "cmmcore/nurbs_utils.h"
using namespace cmmcore;
int main() {
    std::vector<double> U{0, 0, 0, 3e-10, 1, 1, 1};
    std::array<double, CMMCORE_DEG_STACK_SIZE> N{};
    double u = 1e-10, s = 0;
    basis_funs(find_span(3, 2, u, U, false), u, 2, U, N);
    for (int i = 0; i < 3; i++) s += N[i];
    printf("%g\n", s);
    return std::abs(s - 1) > 1e-9;
}
''', 'knots closer than 1e-9', 'the basis functions no longer sum to one in a very short span')
mkseed('S15', 'C04', [(NU, '''        for (int d = 0; d < dim - 1; ++d) {
            result[d] = Sw[d] / w;
        }
    }

''', '''        // an almost vanishing weight would blow the point up
        const double scale = std::abs(w) > 1e-9 ? w : (w < 0 ? -1e-9 : 1e-9);
        for (int d = 0; d < dim - 1; ++d) {
            result[d] = Sw[d] / scale;
        }
    }

''')], r'''
#include <cstdio>
#include "cmmcore/nurbs.h"
using namespace cmmcore;
int main() {
    const double w = 1e-10;
    std::vector<std::vector<vec4>> c{{{0, 0, 0, w}, {0, 2 * w, 0, w}}, {{2 * w, 0, 0, w}, {2 * w, 2 * w, 4 * w, w}}};
    NURBSSurface s(c, {1, 1});
    vec3 r; s.evaluate(0.5, 0.5, r);
    printf("%g %g %g\n", r.x, r.y, r.z);
    return std::abs(r.x - 1) > 1e-9 || std::abs(r.z - 1) > 1e-9;
}
''', 'weights below 1e-9', 'the point is scaled by a clamped weight')
mkseed('S16', 'C05', [(NU, 'double denom = U[r1 + i + pp] - U[r1 + i + k];', 'double denom = U[r1 + i + pp] - U[std::min(r1, p) + i + k];')], r'''
#include <cstdio>
#include "cmmcore/nurbs_utils.h"
using namespace cmmcore;
int main() {
    std::vector<double> U{0, 0, 0, 1, 2, 4, 7, 7, 7};
    std::vector<vec4> P{{0,0,0,1},{1,2,0,1},{2,1,3,1},{4,0,0,1},{5,5,1,1},{7,2,2,1}};
    std::vector<std::vector<vec4>> A, B;
    curve_deriv_cpts(2, U, P, 1, 0, 5, A);
    int bad = 0;
    for (int r1 = 0; r1 < 5; r1++) {
        curve_deriv_cpts(2, U, P, 1, r1, 5, B);
        for (int i = 0; i + r1 < 5; i++) if (std::abs(B[1][i].x - A[1][i + r1].x) > 1e-9) { printf("r1=%d i=%d\n", r1, i); bad = 1; }
    }
    return bad;
}
''', 'a range of control points that starts beyond the degree', 'derivative control points of a later range are divided by the wrong knot difference')
mkseed('S17', 'C07', [(NB, '''            for (int j = 0; j <= _degree[1]; ++j) {
                surf2_kv.insert(surf2_kv.begin(), param);
            }
            std::vector<std::vector<vec4> > surf1_ctrlpts(_size[0]);''', '''            surf2_kv.insert(surf2_kv.begin(), std::min(_degree[0], _degree[1]) + 1, param);
            std::vector<std::vector<vec4> > surf1_ctrlpts(_size[0]);''')], r'''
#include <cstdio>
#include "cmmcore/nurbs.h"
using namespace cmmcore;
int main() {
    std::vector<std::vector<vec4>> c(3, std::vector<vec4>(5));
    for (int i = 0; i < 3; i++) for (int j = 0; j < 5; j++) c[i][j].set(i, j, i * j % 4, 1);
    NURBSSurface s(c, {1, 3});
    auto [a, b] = s.split_surface_v(0.8);
    printf("%zu %zu\n", b._knots_v.size(), b._size[1]);
    if (b._knots_v.size() != b._size[1] + 4) return 1;
    vec3 x, y; s.evaluate(0.7, 1.5, x); b.evaluate(0.7, 1.5, y);
    return (x - y).length() > 1e-9;
}
''', 'a v degree above the u degree, split in v', 'the second part has too few knots')
mkseed('S18', 'C08', [(NB, 'int n_v = _size[1] - 1;', 'int n_v = std::min(_size[0], _size[1]) - 1;')], r'''
#include <cstdio>
#include "cmmcore/nurbs.h"
using namespace cmmcore;
int main() {
    std::vector<std::vector<vec4>> c(3, std::vector<vec4>(6));
    for (int i = 0; i < 3; i++) for (int j = 0; j < 6; j++) c[i][j].set(i, j * j, i * j % 4, 1);
    NURBSSurface s(c, {2, 2});
    int bad = 0;
    for (double v = 0; v <= 4; v += 0.25) {
        NURBSCurve k = s.extract_isocurve(v, SurfaceParameter::V);
        vec3 x, y; s.evaluate(0.3, v, x); k.evaluate(0.3, y);
        if (!((x - y).length() < 1e-9)) { printf("v=%g\n", v); bad = 1; }
    }
    return bad;
}
''', 'more control points in v than in u and a parameter in a late v span', 'the isocurve is built from the wrong control points')
mkseed('S19', 'C09', [(NB, '''        NURBSCurve &operator=(const NURBSCurve &other) {
            control_points = other.control_points;
            _degree = other._degree;
            knots = other.knots;
            _aabb = other._aabb;
            _periodic = other._periodic;
            _interval = other._interval;''', '''        NURBSCurve &operator=(const NURBSCurve &other) {
            control_points = other.control_points;
            _degree = other._degree;
            if (knots.size() != other.knots.size() || !std::equal(knots.begin(), knots.end(), other.knots.begin())) {
                knots = other.knots;
                _periodic = other._periodic;
            }
            _aabb = other._aabb;
            _interval = other._interval;''')], r'''
#include <cstdio>
#include "cmmcore/nurbs.h"
using namespace cmmcore;
int main() {
    std::vector<vec4> p{{0,0,0,1},{1,0,0,1},{1,1,0,1},{0,0,0,1}};
    std::vector<double> k{0,1,2,3,4,5};
    NURBSCurve a(p, 1, k, false), b(p, 1, k, true);
    a = b;
    printf("%d %d\n", a._periodic, b._periodic);
    return a._periodic != b._periodic;
}
''', 'assignment between curves with the same knots and a different kind', 'the target keeps its own kind')
mkseed('S20', 'C12', [(H+'vec.h', '''  void unitize() {
    if (const double l = length(); l <= std::numeric_limits<double>::epsilon() ||
        std::abs(l - 1) <= std::numeric_limits<double>::epsilon()) {
    } else {
      x/=l;
      y/=l;
      z/=l;
    }
  }''', '''  void unitize() {
    if (const double l = length(); l <= std::numeric_limits<float>::epsilon() ||
        std::abs(l - 1) <= std::numeric_limits<double>::epsilon()) {
    } else {
      x/=l;
      y/=l;
      z/=l;
    }
  }''')], r'''
#include <cstdio>
#include "cmmcore/vec.h"
using namespace cmmcore;
int main() {
    vec3 v(3e-9, 0, 4e-9); v.unitize();
    printf("%g\n", v.length());
    return std::abs(v.length() - 1) > 1e-9;
}
''', 'a vector shorter than 1e-7', 'short vectors are left as they are')
mkseed('S21', 'C06', [(NU, '''            if (std::fabs(difference) <= 1e-12) {
                mult += 1;''', '''            if (std::fabs(difference) <= 1e-12 * std::max(1.0, std::fabs(knot) * 1e3)) {
                mult += 1;''')], r'''
#include <cstdio>
#include "cmmcore/nurbs_utils.h"
using namespace cmmcore;
int main() {
    std::vector<double> U{0, 0, 0, 1000, 1000.0000002, 2000, 2000, 2000};
    int m = find_multiplicity(1000, U);
    printf("%d\n", m);
    return m != 1;
}
''', 'two different knots close to each other with large values', 'they are counted as one knot')
mkseed('S22', 'C03', [(NU, '''            const double b = N[i] * P[idx].w;
            sum_of_weights += b;''', '''            const double b = N[i] * P[idx].w;
            if (i > CMMCORE_DEG_STACK_SIZE / 2) continue; // vanishes this far from the span
            sum_of_weights += b;''')], r'''
#include <cstdio>
#include "cmmcore/nurbs_utils.h"
using namespace cmmcore;
int main() {
    int bad = 0;
    for (int p = 1; p < CMMCORE_DEG_STACK_SIZE; p++) {
        std::vector<double> U(p + 1, 0.0); U.insert(U.end(), p + 1, 1.0);
        std::vector<vec4> P; for (int i = 0; i <= p; i++) P.push_back(vec4(double(i) / p, 0, 0, 1));
        vec3 r; curve_point(p, p, U, P, 0.9, r, false);
        if (std::abs(r.x - 0.9) > 1e-9) { printf("degree %d: %g\n", p, r.x); bad = 1; }
    }
    return bad;
}
''', 'a degree above half of the supported maximum', 'the last control points are left out')
