// A tree is a node and two subtrees. A recursive call is replaced by its contract: what it does for an arbitrary tree.
// The quantifier "for every point of the tree" is one arbitrary point q with an arbitrary place: at the node, in the left
// or the right subtree, or (where == 3) not in the tree.
#include "vc.h"
#include <algorithm>
#include <iostream>
#include <memory>
#include <stdexcept>
#include <vector>
#include <cmath>
#include "cmmcore/vec.h"
#define private public
#include "cmmcore/kdtree.h"
#undef private
using namespace cmmcore;
using Node = KDNode<vec3>;
static double at(const vec3 &a, int axis) { return axis == 0 ? a.x : axis == 1 ? a.y : a.z; }
static vec3 point(const char *x, const char *y, const char *z) { return vec3(vc_real(x, -8, 8), vc_real(y, -8, 8), vc_real(z, -8, 8)); }
static double d2(const vec3 &a, const vec3 &b) { return (a.x - b.x) * (a.x - b.x) + (a.y - b.y) * (a.y - b.y) + (a.z - b.z) * (a.z - b.z); }
static bool same(const vec3 &a, const vec3 &b) { return (a.x == b.x) & (a.y == b.y) & (a.z == b.z); }
static bool within(const vec3 &a, const vec3 &lo, const vec3 &hi) { return (lo.x <= a.x) & (a.x <= hi.x) & (lo.y <= a.y) & (a.y <= hi.y) & (lo.z <= a.z) & (a.z <= hi.z); }
struct World { Node *node, *left, *right; vec3 q; int where; };
static World g;
// natively: a node with one leaf on each side
static World world() {
    World w;
    w.q = point("qx", "qy", "qz");
    const int axis = vc_enum("axis", 0, 2);
    const bool l = vc_enum("l", 0, 1), r = vc_enum("r", 0, 1);
    w.where = vc_enum("where", 0, 3);
    const vec3 p = point("px", "py", "pz");
    w.node = new Node(p, axis);
    w.left = l ? new Node(w.where == 1 ? w.q : point("lx", "ly", "lz"), (axis + 1) % 3) : nullptr;
    w.right = r ? new Node(w.where == 2 ? w.q : point("rx", "ry", "rz"), (axis + 1) % 3) : nullptr;
    w.node->left = w.left; w.node->right = w.right;
    if (w.where == 0) w.node->point = w.q;
    // order of the tree
    if (w.where == 1) { vc_assume(l); vc_assume(at(w.q, axis) <= at(w.node->point, axis)); }
    if (w.where == 2) { vc_assume(r); vc_assume(at(w.q, axis) >= at(w.node->point, axis)); }
    if (!VC_SYM && l) vc_assume(at(w.left->point, axis) <= at(w.node->point, axis));
    if (!VC_SYM && r) vc_assume(at(w.right->point, axis) >= at(w.node->point, axis));
    return w;
}
static bool below(const Node *n) { return n && ((n == g.left && g.where == 1) || (n == g.right && g.where == 2)); }

static bool g_other;      // the point reported is one of a subtree
static vec3 g_found;
extern "C" void nearest_contract(const KDTree3D *, Node *n, const vec3 *target, vec3 *best, double *d) {
    vc_check(n == nullptr || n == g.left || n == g.right, "callee: a subtree is searched");
    vc_check(*d == d2(*target, *best), "callee: distance of the best point so far");
    if (!n) return;
    if (VC_SYM ? vc_enum("nearer", 0, 1) : 0) {       // a point of the subtree is nearer
        const vec3 b = point("bx", "by", "bz");
        vc_assume(d2(*target, b) < *d);
        *best = b; *d = d2(*target, b); g_other = true; g_found = b;
    }
    if (below(n)) vc_assume(*d <= d2(*target, g.q));
}
VC_HARNESS(nearest_step) {
    g = world(); g_other = false;
    KDTree3D T;
    vec3 target = point("x", "y", "z"), best = point("b0x", "b0y", "b0z"); const vec3 before = best;
    double d = d2(target, best); const double d0 = d;
    T.nearestNeighborRec(g.node, target, best, d);
    vc_check_eq(d, d2(target, best), "distance of the best point");
    vc_check_le(d, d0, "not farther than before");
    if (g.where != 3) vc_check_le(d, d2(target, g.q), "no point of the tree is nearer");
    const bool known = same(best, before) | same(best, g.node->point) | (g_other & same(best, g_found))
                       | (!VC_SYM && ((g.left && same(best, g.left->point)) || (g.right && same(best, g.right->point))));
    vc_check(known, "a point of the tree or the one before");
}
extern "C" void nearest_root(const KDTree3D *T, Node *n, const vec3 *target, vec3 *best, double *d) {
    vc_check(n == g.node, "callee: the whole tree is searched");
    vc_check(*d == d2(*target, *best), "callee: distance of the best point so far");
    const vec3 b = point("bx", "by", "bz");
    vc_assume(d2(*target, b) <= *d && d2(*target, b) <= d2(*target, g.q));
    *best = b; *d = d2(*target, b); g_other = true; g_found = b;
}
VC_HARNESS(nearest) {
    g = world(); g_other = false;
    KDTree3D T; T.root = vc_enum("empty", 0, 1) ? nullptr : g.node;
    const vec3 target = point("x", "y", "z");
    bool thrown = false; vec3 r(0, 0, 0);
    try { r = T.nearestNeighbor(target); } catch (const std::runtime_error &) { thrown = true; }
    vc_check(thrown == (T.root == nullptr), "an empty tree is refused");
    if (!thrown) {
        if (g.where != 3) vc_check_le(d2(target, r), d2(target, g.q), "no point of the tree is nearer");
        if (VC_SYM) vc_check(g_other && same(r, g_found), "a point of the tree");
        else vc_check(same(r, g.node->point) || (g.left && same(r, g.left->point)) || (g.right && same(r, g.right->point)), "a point of the tree");
    }
    T.root = nullptr;
}

static long g_count;
extern "C" void range_contract(const KDTree3D *, Node *n, const vec3 *lo, const vec3 *hi, std::vector<vec3> *out) {
    vc_check(n == nullptr || n == g.left || n == g.right, "callee: a subtree is searched");
    if (!n) return;
    if (below(n) && within(g.q, *lo, *hi)) ++g_count;
    const vec3 e = point("ex", "ey", "ez");
    vc_assume(within(e, *lo, *hi));
    out->push_back(e);                        // stands for the points found there
}
VC_HARNESS(range_step) {
    g = world(); g_count = 0;
    KDTree3D T;
    const vec3 lo = point("x", "y", "z"), hi = point("X", "Y", "Z");
    std::vector<vec3> out;
    T.rangeSearchRec(g.node, lo, hi, out);
    long n = 0;
    for (const vec3 &o : out) { vc_check(within(o, lo, hi), "only points in the range"); if (VC_SYM ? false : same(o, g.q)) ++n; }
    if (!VC_SYM) {
        if (g.where != 3) vc_check((n > 0) == within(g.q, lo, hi), "every point in the range is reported once");
        return;
    }
    if (g.where == 1 || g.where == 2) vc_check(g_count == within(g.q, lo, hi), "every point in the range is reported once");
    else {
        const bool in = within(g.node->point, lo, hi);
        vc_check(g_count == 0 && (!in || (out.size() >= 1 && same(out[0], g.node->point))), "every point in the range is reported once");
    }
}
VC_HARNESS(range_null) {
    KDTree3D T;
    const vec3 lo = point("x", "y", "z"), hi = point("X", "Y", "Z");
    const auto out = T.rangeSearch(lo, hi);
    vc_check(out.empty(), "nothing is found in an empty tree");
}

static Node *g_new;
extern "C" Node *insert_contract(KDTree3D *T, Node *n, const vec3 *p, int depth) {
    vc_check(n == g.left || n == g.right, "callee: a subtree grows");
    vc_check(depth >= 0, "callee: depth");
    T->size_++;
    vc_check(g_new == nullptr, "callee: inserted once");
    return g_new = new Node(*p, depth % 3);
}
VC_HARNESS(insert_step) {
    g = world(); g_new = nullptr;
    const bool none = vc_enum("none", 0, 1);
    const long size = vc_int("size", 0, 1000), depth = vc_int("depth", 0, 1000);
    KDTree3D T; T.size_ = size;
    const vec3 p = point("x", "y", "z"), np = g.node->point; const int axis = g.node->axis;
    Node *r = T.insertRec(none ? nullptr : g.node, p, depth);
    vc_check((long)T.size_ == size + 1, "one point more");
    if (none) {
        vc_check(r && same(r->point, p) && !r->left && !r->right, "a leaf with the point");
        vc_check(0 <= r->axis && r->axis <= 2, "axis of a leaf");
        return;
    }
    vc_check(r == g.node && same(r->point, np) && r->axis == axis, "the node stays");
    const bool left = r->left != g.left || (!VC_SYM && g.left && (g.left->left || g.left->right));
    vc_check(left ? r->right == g.right && at(p, axis) <= at(np, axis) : r->left == g.left && at(p, axis) >= at(np, axis), "inserted on the side of the point");
    if (VC_SYM) vc_check(g_new && (left ? r->left == g_new : r->right == g_new), "the grown subtree is attached");
    else vc_check(left ? r->left != nullptr : r->right != nullptr, "the grown subtree is attached");
}
VC_HARNESS(insert_first) {
    KDTree3D T;
    const vec3 p = point("x", "y", "z"), t = point("tx", "ty", "tz");
    T.insert(p);
    vc_check(T.size() == 1 && !T.empty(), "one point");
    vc_check(same(T.nearestNeighbor(t), p), "the only point is the nearest");
    vc_check(T.rangeSearch(t, p).size() == (within(p, t, p) ? 1 : 0), "found in its range");
}

// ------------------------------------------------------------------------------------------------ building
// q is an arbitrary point of the list, now at place g_at; a call that permutes a part of the list moves it within that part
static vec3 *g_base;
static long g_at, g_total;
static Node *g_holder;
static bool g_twice;
static void permute(vec3 *first, vec3 *last) {
    const long n = last - first, o = first - g_base;
    std::vector<vec3> after;
    vc_sym_vec(&after, n, 3, "permuted", -8, 8, 0);
    std::copy(after.begin(), after.end(), first);
    if (o <= g_at && g_at < o + n) {
        g_at = vc_int("at", 0, 100000);
        vc_assume(o <= g_at && g_at < o + n);
        vc_assume(same(g_base[g_at], g.q));
    }
}
extern "C" void nth_contract(vec3 *first, vec3 *nth, vec3 *last, PointComparator3D by) {
    vc_check(first <= nth && nth < last, "callee: a median of a part of the list");
    permute(first, last);
    const long o = first - g_base, m = nth - g_base, n = last - first;
    if (o <= g_at && g_at < m) vc_assume(at(g.q, by.axis) <= at(*nth, by.axis));
    if (g_at == m) vc_assume(same(*nth, g.q));
    if (m < g_at && g_at < o + n) vc_assume(at(g.q, by.axis) >= at(*nth, by.axis));
}
extern "C" Node *build_contract(KDTree3D *, vec3 *first, vec3 *last, int depth) {
    vc_check(depth >= 0, "callee: depth");
    if (first >= last) return nullptr;
    const long n = last - first, o = first - g_base;
    g_total += n;
    Node *r = new Node(point("cx", "cy", "cz"), vc_enum("caxis", 0, 2));
    if (o <= g_at && g_at < o + n) { g_twice |= g_holder != nullptr; g_holder = r; }
    permute(first, last);
    return r;
}
static long count(const Node *n) { return n ? 1 + count(n->left) + count(n->right) : 0; }
static bool holds(const Node *n, const vec3 &q) { return n && (same(n->point, q) || holds(n->left, q) || holds(n->right, q)); }
VC_HARNESS(build_step) {
    const long n = vc_int("n", 0, VC_SYM ? 100000 : 12), depth = vc_int("depth", 0, 1000);
    auto &P = *new std::vector<vec3>;
    vc_sym_vec(&P, n, 3, "P", -8, 8, 0);
    g_base = P.data(); g_total = 0; g_holder = nullptr; g_twice = false;
    g_at = vc_int("q", 0, VC_SYM ? 100000 : 11);
    vc_assume(g_at < n || n == 0);
    if (n > 0) g.q = P[g_at];
    KDTree3D T;
    Node *r = T.buildKDTree(P.begin(), P.end(), depth);
    vc_check((r == nullptr) == (n == 0), "a tree unless there are no points");
    if (n == 0) return;
    if (!VC_SYM) {
        g_total = count(r) - 1;
        if (!same(r->point, g.q)) g_holder = holds(r->left, g.q) ? r->left : holds(r->right, g.q) ? r->right : nullptr;
    }
    vc_check(0 <= r->axis && r->axis <= 2, "axis of a node");
    vc_check(g_total + 1 == n && !g_twice, "every point is stored once");
    if (g_holder == nullptr) vc_check(same(r->point, g.q), "every point is stored");
    else {
        vc_check(g_holder == r->left || g_holder == r->right, "both subtrees are attached");
        vc_check(g_holder == r->left ? at(g.q, r->axis) <= at(r->point, r->axis) : at(g.q, r->axis) >= at(r->point, r->axis), "ordered by the axis");
    }
}
static bool g_whole;
extern "C" Node *build_root(KDTree3D *, vec3 *first, vec3 *last, int depth) {
    g_whole = first == g_base && last - first == g_total && depth >= 0;
    return g.node;
}
VC_HARNESS(build) {
    const long n = vc_int("n", 1, VC_SYM ? 100000 : 12);
    auto &P = *new std::vector<vec3>;
    vc_sym_vec(&P, n, 3, "P", -8, 8, 0);
    g_base = P.data(); g_total = n; g_whole = !VC_SYM; g.node = VC_SYM ? new Node(vec3(0, 0, 0), 0) : nullptr;
    KDTree3D T;
    if (vc_enum("again", 0, 1)) T.insert(point("x", "y", "z"));
    T.build(P);
    vc_check(g_whole && (VC_SYM ? T.root == g.node : count(T.root) == n), "the tree holds the points given");
    vc_check((long)T.size() == n && !T.empty(), "their number");
    if (VC_SYM) T.root = nullptr;
}
static bool g_call;
extern "C" Node *insert_root(KDTree3D *T, Node *n, const vec3 *p, int depth) {
    g_call = n == g.node && same(*p, g.q) && depth >= 0;
    T->size_++;
    return g.left;
}
VC_HARNESS(insert) {
    g = world(); g.q = point("x", "y", "z"); g_call = !VC_SYM;
    KDTree3D T; T.root = g.node; T.size_ = 3;
    if (VC_SYM) g.left = new Node(vec3(0, 0, 0), 0);
    T.insert(g.q);
    vc_check(g_call && (VC_SYM ? T.root == g.left : holds(T.root, g.q)), "the point is inserted into the tree");
    vc_check(T.size() == 4, "one point more");
    if (VC_SYM) T.root = nullptr;
}
static vec3 g_lo, g_hi;
extern "C" void range_root(const KDTree3D *, Node *n, const vec3 *lo, const vec3 *hi, std::vector<vec3> *out) {
    vc_check(n == g.node, "callee: the whole tree is searched");
    vc_check(same(*lo, g_lo) && same(*hi, g_hi), "callee: the same range");
    out->push_back(g.q);
}
VC_HARNESS(range) {
    g = world();
    KDTree3D T; T.root = g.node;
    g_lo = point("x", "y", "z"); g_hi = point("X", "Y", "Z");
    const auto out = T.rangeSearch(g_lo, g_hi);
    if (VC_SYM) vc_check(out.size() == 1 && same(out[0], g.q), "what the search of the tree finds");
    else vc_check(out.size() == (size_t)within(g.node->point, g_lo, g_hi) + (g.left && within(g.left->point, g_lo, g_hi)) + (g.right && within(g.right->point, g_lo, g_hi)), "what the search of the tree finds");
    T.root = nullptr;
}
