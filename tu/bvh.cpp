// A tree is a node and two subtrees (a leaf holds an object and its box, an inner node two subtrees and a box that contains
// their boxes). A recursive call is replaced by its contract. "Every object of the tree" is one arbitrary object with an
// arbitrary place: in the left or the right subtree of an inner node, or at the leaf.
#include "vc.h"
#include <algorithm>
#include <cmath>
#include <memory>
#include <sstream>
#include <stack>
#include <string>
#include <vector>
#include "cmmcore/vec.h"
#include "cmmcore/aabb.h"
#include "cmmcore/bvh.hpp"
using namespace cmmcore;
static AABB box(const char *a, const char *b, const char *c, const char *A, const char *B, const char *C) {
    AABB r; r.min = vec3(vc_real(a, -8, 8), vc_real(b, -8, 8), vc_real(c, -8, 8)); r.max = vec3(vc_real(A, -8, 8), vc_real(B, -8, 8), vc_real(C, -8, 8));
    if (!VC_SYM) for (int i = 0; i < 3; ++i) if (r.max[i] < r.min[i]) std::swap(r.min[i], r.max[i]);
    vc_assume((r.min.x <= r.max.x) & (r.min.y <= r.max.y) & (r.min.z <= r.max.z));
    return r;
}
static bool inside(const AABB &a, const AABB &b) { return (b.min.x <= a.min.x) & (b.min.y <= a.min.y) & (b.min.z <= a.min.z) & (a.max.x <= b.max.x) & (a.max.y <= b.max.y) & (a.max.z <= b.max.z); }
static bool meet(const AABB &a, const AABB &b) { return (a.min.x <= b.max.x) & (b.min.x <= a.max.x) & (a.min.y <= b.max.y) & (b.min.y <= a.max.y) & (a.min.z <= b.max.z) & (b.min.z <= a.max.z); }
static bool equal(const AABB &a, const AABB &b) { return (a.min.x == b.min.x) & (a.min.y == b.min.y) & (a.min.z == b.min.z) & (a.max.x == b.max.x) & (a.max.y == b.max.y) & (a.max.z == b.max.z); }
static double lo(double a, double b) { return a < b ? a : b; }
static double hi(double a, double b) { return a > b ? a : b; }
static AABB hull(const AABB &a, const AABB &b) {
    AABB r; r.min = vec3(lo(a.min.x, b.min.x), lo(a.min.y, b.min.y), lo(a.min.z, b.min.z)); r.max = vec3(hi(a.max.x, b.max.x), hi(a.max.y, b.max.y), hi(a.max.z, b.max.z)); return r;
}
struct Tree { BVHNode *root; Object3D *q; int where; };      // where: 0 the leaf, 1 left, 2 right
static Tree tree(bool first) {
    Tree t;
    t.where = first ? vc_enum("where1", 0, 2) : vc_enum("where2", 0, 2);
    const AABB b = first ? box("ax", "ay", "az", "Ax", "Ay", "Az") : box("bx", "by", "bz", "Bx", "By", "Bz");
    t.q = new Object3D(b, 1);
    if (t.where == 0) { t.root = new BVHNode(b, t.q); return t; }
    const AABB n = first ? box("cx", "cy", "cz", "Cx", "Cy", "Cz") : box("dx", "dy", "dz", "Dx", "Dy", "Dz");
    const AABB o = first ? box("ex", "ey", "ez", "Ex", "Ey", "Ez") : box("fx", "fy", "fz", "Fx", "Fy", "Fz");
    t.root = new BVHNode(VC_SYM ? n : hull(b, o), nullptr);
    auto *l = VC_SYM ? new BVHNode(n, nullptr) : new BVHNode(t.where == 1 ? b : o, t.where == 1 ? t.q : new Object3D(o, 2));
    auto *r = VC_SYM ? new BVHNode(n, nullptr) : new BVHNode(t.where == 2 ? b : o, t.where == 2 ? t.q : new Object3D(o, 2));
    t.root->left.reset(l); t.root->right.reset(r);
    vc_assume(inside(b, t.root->bounding_box));
    return t;
}
static bool below(const Tree &t, const BVHNode *n) { return n == t.root || (t.where == 1 && n == t.root->left.get()) || (t.where == 2 && n == t.root->right.get()); }
static bool part(const Tree &t, const BVHNode *n) { return n != nullptr && (n == t.root || n == t.root->left.get() || n == t.root->right.get()); }
static Tree g1, g2;
static long g_count;

extern "C" void traverse_contract(const BVHNode *n, const AABB *target, std::vector<const Object3D *> *) {
    vc_check(part(g1, n) && n != g1.root, "callee: a subtree is searched");
    if (below(g1, n) && meet(g1.q->bounding_box, *target)) ++g_count;
}
VC_HARNESS(traverse_step) {
    g1 = tree(true); g_count = 0;
    const AABB t = box("x", "y", "z", "X", "Y", "Z");
    std::vector<const Object3D *> found;
    traverse_bvh(g1.root, t, found);
    if (!VC_SYM || g1.where == 0) {
        for (auto *o : found) {
            if (o == g1.q) ++g_count;
            vc_check(meet(o->bounding_box, t), "only objects whose box meets the target");
        }
    }
    vc_check(g_count == meet(g1.q->bounding_box, t), "every object whose box meets the target is reported once");
}
static bool g_whole;
static vec3 g_point;
extern "C" void traverse_root(const BVHNode *n, const AABB *t, std::vector<const Object3D *> *) {
    g_whole = n == g1.root && (t->min.x == g_point.x) & (t->min.y == g_point.y) & (t->min.z == g_point.z) & (t->max.x == g_point.x) & (t->max.y == g_point.y) & (t->max.z == g_point.z);
}
VC_HARNESS(contains) {
    g1 = tree(true); g_whole = false;
    g_point = vec3(vc_real("x", -8, 8), vc_real("y", -8, 8), vc_real("z", -8, 8));
    std::vector<const Object3D *> found;
    contains_point(g1.root, g_point, found);
    if (!VC_SYM) { AABB t; t.min = t.max = g_point; g_whole = (std::find(found.begin(), found.end(), g1.q) != found.end()) == meet(g1.q->bounding_box, t); }
    vc_check(g_whole, "the objects whose box contains the point");
}
VC_HARNESS(null_trees) {
    g1 = tree(true);
    std::vector<const Object3D *> found;
    const AABB t = box("x", "y", "z", "X", "Y", "Z");
    traverse_bvh(nullptr, t, found);
    std::vector<std::pair<const BVHNode *, const BVHNode *>> pairs;
    intersect_bvh(nullptr, g1.root, pairs); intersect_bvh(g1.root, nullptr, pairs); intersect_bvh(nullptr, nullptr, pairs);
    vc_check(found.empty() && pairs.empty(), "nothing is found in an empty tree");
}

// the overlap that is reported: the common box has a volume of at least 1e-6
static vec3 common(const AABB &a, const AABB &b) { return vec3(lo(a.max.x, b.max.x) - hi(a.min.x, b.min.x), lo(a.max.y, b.max.y) - hi(a.min.y, b.min.y), lo(a.max.z, b.max.z) - hi(a.min.z, b.min.z)); }
static bool overlap(const AABB &a, const AABB &b) { const vec3 d = common(a, b); return meet(a, b) & (d.x * d.y * d.z >= 1e-6); }
static bool no_less(const vec3 &d, const vec3 &D) { return !((0 <= d.x) & (0 <= d.y) & (0 <= d.z) & (d.x <= D.x) & (d.y <= D.y) & (d.z <= D.z)) | (d.x * d.y * d.z <= D.x * D.y * D.z); }
VC_HARNESS(lemma_volume) {
    const vec3 d(vc_real("x", 0, 8), vc_real("y", 0, 8), vc_real("z", 0, 8)), D(vc_real("X", 0, 8), vc_real("Y", 0, 8), vc_real("Z", 0, 8));
    vc_check(no_less(d, D), "a smaller box has no larger volume");
}
using Pairs = std::vector<std::pair<const BVHNode *, const BVHNode *>>;
extern "C" void intersect_contract(const BVHNode *a, const BVHNode *b, Pairs *) {
    vc_check(part(g1, a) && part(g2, b), "callee: subtrees are searched");
    vc_check(a != g1.root || b != g2.root, "callee: a smaller pair");
    if (below(g1, a) && below(g2, b) && overlap(g1.q->bounding_box, g2.q->bounding_box)) ++g_count;
}
VC_HARNESS(intersect_step) {
    g1 = tree(true); g2 = tree(false); g_count = 0;
    vc_assume(no_less(common(g1.q->bounding_box, g2.q->bounding_box), common(g1.root->bounding_box, g2.root->bounding_box)));       // lemma_volume
    Pairs found;
    intersect_bvh(g1.root, g2.root, found);
    for (auto &p : found) if (p.first->object == g1.q && p.second->object == g2.q) ++g_count;
    vc_check(g_count == overlap(g1.q->bounding_box, g2.q->bounding_box), "every pair of objects with a common volume is reported once");
    for (auto &p : found) vc_check(overlap(p.first->bounding_box, p.second->bounding_box), "only such pairs");
}

// ------------------------------------------------------------------------------------------------ building
static std::vector<Object3D *> *g_objs;
static std::vector<Object3D *> &objects(long n) {
    auto *v = new std::vector<Object3D *>;
    for (long i = 0; i < n; ++i) {
        const AABB b = box("ax", "ay", "az", "Ax", "Ay", "Az");
        vc_assume((b.min.x > -1e300) & (b.min.y > -1e300) & (b.min.z > -1e300) & (b.max.x < 1e300) & (b.max.y < 1e300) & (b.max.z < 1e300));      // the box of nothing is at the largest double
        v->push_back(new Object3D(b, (int)i));
    }
    g_objs = new std::vector<Object3D *>(*v);
    return *v;
}
VC_HARNESS(split) {
    const long n = vc_enum("n", 0, 4);
    auto &v = objects(n);
    auto [l, r] = split_objects(v);
    vc_check((long)(l.size() + r.size()) == n, "every object goes to one side");
    for (auto *o : *g_objs) vc_check(std::count(l.begin(), l.end(), o) + std::count(r.begin(), r.end(), o) == 1, "every object goes to one side");
    if (n >= 2) vc_check(!l.empty() && !r.empty(), "neither side is empty");
}
extern "C" void split_contract(std::pair<std::vector<Object3D *>, std::vector<Object3D *>> *ret, std::vector<Object3D *> *v) {
    const long n = v->size();
    vc_check(n >= 2, "callee: something to split");
    new (ret) std::pair<std::vector<Object3D *>, std::vector<Object3D *>>;
    const long k = vc_enum("left", 1, n - 1);
    for (long i = 0; i < n; ++i) (i < k ? ret->first : ret->second).push_back((*v)[i]);
}
static std::vector<Object3D *> *g_built[2]; static BVHNode *g_made[2]; static long g_calls;
extern "C" void build_contract(std::unique_ptr<BVHNode> *ret, std::vector<Object3D *> *v) {
    vc_check(!v->empty() && v->size() < g_objs->size(), "callee: a shorter list");
    AABB b = (*v)[0]->bounding_box;
    for (auto *o : *v) b = hull(b, o->bounding_box);
    auto *r = new BVHNode(b, v->size() == 1 ? (*v)[0] : nullptr);
    new (ret) std::unique_ptr<BVHNode>(r);
    if (g_calls < 2) { g_built[g_calls] = new std::vector<Object3D *>(*v); g_made[g_calls] = r; }
    ++g_calls;
}
static long seen(const BVHNode *n, const Object3D *o) {
    if (!n) return 0;
    for (int i = 0; i < 2 && i < g_calls; ++i) if (n == g_made[i]) return std::count(g_built[i]->begin(), g_built[i]->end(), o);
    return (n->object == o) + seen(n->left.get(), o) + seen(n->right.get(), o);
}
static void sound(const BVHNode *n) {
    for (int i = 0; i < 2 && i < g_calls; ++i) if (n == g_made[i]) return;
    if (n->object) { vc_check(!n->left && !n->right && equal(n->bounding_box, n->object->bounding_box), "a leaf has the box of its object"); return; }
    vc_check(n->left && n->right, "an inner node has two subtrees");
    if (!n->left || !n->right) return;
    vc_check(equal(n->bounding_box, hull(n->left->bounding_box, n->right->bounding_box)), "the box of a node is the smallest around its subtrees");
    sound(n->left.get()); sound(n->right.get());
}
static void holds(const std::unique_ptr<BVHNode> &r, long n) {
    vc_check((r == nullptr) == (n == 0), "a tree unless there are no objects");
    if (!r) return;
    for (auto *o : *g_objs) vc_check(seen(r.get(), o) == 1, "every object is stored once");
    sound(r.get());
}
VC_HARNESS(top_down) {
    const long n = vc_enum("n", 0, 4); g_calls = 0;
    auto &v = objects(n);
    const auto r = build_bvh(v, false);
    holds(r, n);
}
VC_HARNESS(bottom_up) {
    const long n = vc_enum("n", 0, 4); g_calls = 0;
    auto &v = objects(n);
    const auto r = build_bvh(v, true);
    holds(r, n);
}

// ------------------------------------------------------------------------------------------------ copies
static const BVHNode *g_from[2]; static BVHNode *g_to[2];
extern "C" void copy_contract(BVHNode *to, const BVHNode *from) {
    new (to) BVHNode(from->bounding_box, from->object);
    if (g_calls < 2) { g_from[g_calls] = from; g_to[g_calls] = to; }
    ++g_calls;
}
static bool copied(const BVHNode *to, const BVHNode *from) {
    if (!VC_SYM) return (!to && !from) || (to && from && to != from && to->object == from->object && equal(to->bounding_box, from->bounding_box) && copied(to->left.get(), from->left.get()) && copied(to->right.get(), from->right.get()));
    if (!from) return !to;
    for (int i = 0; i < 2 && i < g_calls; ++i) if (g_from[i] == from && g_to[i] == to) return true;
    return false;
}
static void copied(const BVHNode *r) {
    vc_check(equal(r->bounding_box, g1.root->bounding_box), "the box is copied");
    vc_check(r->object == g1.root->object, "the object is copied");
    vc_check(copied(r->left.get(), g1.root->left.get()) && copied(r->right.get(), g1.root->right.get()), "the subtrees are copied");
}
VC_HARNESS(copy_step) {
    g1 = tree(true); g_calls = 0;
    copied(new BVHNode(*g1.root));
}
VC_HARNESS(assign) {
    g1 = tree(true);
    auto *r = new BVHNode();
    if (vc_enum("full", 0, 1)) { r->left = std::make_unique<BVHNode>(); r->right = std::make_unique<BVHNode>(); r->object = new Object3D(); }
    g_calls = 0;
    *r = *g1.root;
    copied(r);
}
VC_HARNESS(children) {
    BVHNode n;
    auto l = std::make_unique<BVHNode>(), r = std::make_unique<BVHNode>();
    auto *pl = l.get(), *pr = r.get();
    n.setLeft(l); n.setRight(r);
    vc_check(n.left.get() == pl && n.right.get() == pr && !l && !r, "subtrees are set on their own sides");
}
static BVHNode *small_tree(long n, Object3D **o) {
    for (long i = 0; i < n; ++i) o[i] = new Object3D(box("ax", "ay", "az", "Ax", "Ay", "Az"), (int)i);
    if (n == 1) return new BVHNode(o[0]->bounding_box, o[0]);
    auto *r = new BVHNode(hull(o[0]->bounding_box, o[1]->bounding_box), nullptr);
    r->left.reset(new BVHNode(o[0]->bounding_box, o[0])); r->right.reset(new BVHNode(o[1]->bounding_box, o[1]));
    return r;
}
VC_HARNESS(intersect_iterative) {
    const long n = vc_enum("n", 0, 2), m = vc_enum("m", 0, 2);
    Object3D *p[2], *q[2];
    auto *a = n ? small_tree(n, p) : nullptr, *b = m ? small_tree(m, q) : nullptr;
    Pairs found;
    intersect_bvh_iterative(a, b, found);
    for (long i = 0; i < n; ++i) for (long j = 0; j < m; ++j) {
        long k = 0;
        for (auto &f : found) k += f.first->object == p[i] && f.second->object == q[j];
        vc_check(k == meet(p[i]->bounding_box, q[j]->bounding_box), "every pair of objects whose boxes meet is reported once");
    }
    vc_check(found.size() <= (size_t)(n * m), "nothing else is reported");
}
