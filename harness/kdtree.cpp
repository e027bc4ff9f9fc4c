// C27: KD-tree structure and nearest-object search against a linear scan.
#include "mc.h"
#include "lat.h"
#include <geomc/linalg/Vec.h>
#include <geomc/shape/Rect.h>
#include <geomc/shape/Sphere.h>
#include <geomc/shape/KDTree.h>
#include <functional>
#include <set>
using namespace geom;
#ifndef ET
#define ET double
#endif
typedef ET T;
static constexpr int M = MCP;
static uint64_t IDX;
typedef Vec<T, M> V_; typedef Rect<T, M> B_; typedef long double R;
static std::string ctx;
static V_ v(const std::array<T, M>& a) { V_ o; for (int i = 0; i < M; ++i) o[i] = a[i]; return o; }
// the linear scan
static R d2(const V_& a, const V_& p) { R s = 0; for (int i = 0; i < M; ++i) s += ((R)a[i] - p[i]) * ((R)a[i] - p[i]); return s; }
static R d2(const B_& b, const V_& p) { R s = 0; for (int i = 0; i < M; ++i) { R q = std::max<R>({(R)b.lo[i] - p[i], (R)p[i] - b.hi[i], 0}); s += q * q; } return s; }
static R d2(const Sphere<T, M>& s, const V_& p) { V_ r((T)s.r); return d2(B_(s.center - r, s.center + r), p); }   // (indexed by its bounding box)
template <typename K> static R d2(const std::pair<K, int>& a, const V_& p) { return d2(a.first, p); }
template <typename K> static R d2(K* a, const V_& p) { return d2(*a, p); }
static bool within(const B_& o, const V_& a) { for (int i = 0; i < M; ++i) if (a[i] < o.lo[i] or a[i] > o.hi[i]) return false; return true; }
static bool within(const B_& o, const B_& a) { return within(o, a.lo) and within(o, a.hi); }
static bool within(const B_& o, const Sphere<T, M>& s) { V_ r((T)s.r); return within(o, B_(s.center - r, s.center + r)); }
template <typename K> static bool within(const B_& o, const std::pair<K, int>& a) { return within(o, a.first); }
template <typename K> static bool within(const B_& o, K* a) { return within(o, *a); }
static std::string str(const V_& a) { std::string s = "("; for (int i = 0; i < M; ++i) s += mc::str(i ? "," : "", a[i]); return s + ")"; }
static std::string str(const B_& a) { return "[" + str(a.lo) + str(a.hi) + "]"; }
static std::string str(const Sphere<T, M>& a) { return mc::str("o", str(a.center), "r", a.r); }
template <typename K> static std::string str(const std::pair<K, int>& a) { return str(a.first); }
template <typename K> static std::string str(K* a) { return str(*a); }

template <typename O> static void verify(KDTree<T, M, O>& t, const std::vector<O>& objs, const std::vector<V_>& qs, bool by_hand = false) {
    typedef KDTree<T, M, O> K; const K& c = t;
    std::multiset<std::string> want, got; for (auto& o : objs) want.insert(str(o));
    mc::state(); MC_CHECK(t.nobjects() == (index_t)objs.size(), "count", ctx, ": ", t.nobjects(), " objects");
    // structure: every inner node's objects are divided among its children; bounds cover them
    size_t guard = 0; bool first = true;
    std::function<void(typename K::node_iterator, int)> walk = [&](typename K::node_iterator n, int depth) {
        if (++guard > 4000) return;
        std::multiset<std::string> mine; size_t g = 0; for (auto i = n.objects_begin(); i != n.objects_end() and ++g < 200; ++i) { mine.insert(str(*i)); if (not within(n.bound(), *i)) mc::fail("bounds", mc::str(ctx, ": a node at depth ", depth, " does not cover ", str(*i))); }
        if (first) { got = mine; first = false; }
        mc::step();
        auto b = n.begin(), e = n.end(); if (b.operator->() == e.operator->()) return;
        std::multiset<std::string> sum; size_t kids = 0;
        for (auto i = b; i.operator->() != e.operator->() and kids < 100; ++i) { ++kids; auto up = i; -up; if (up.operator->() != n.operator->()) mc::fail("parent", mc::str(ctx, ": a child at depth ", depth + 1, " has another parent")); size_t g2 = 0; for (auto o = i.objects_begin(); o != i.objects_end() and ++g2 < 200; ++o) sum.insert(str(*o)); walk(i, depth + 1); }
        if (sum != mine) mc::fail("children", mc::str(ctx, ": the ", kids, " children at depth ", depth, " hold ", sum.size(), " of ", mine.size(), " objects"));
        if (not by_hand and kids > (size_t)t.getStructureParams().node_arity) mc::fail("arity", mc::str(ctx, ": ", kids, " children"));
    };
    walk(t.begin(), 0); MC_CHECK(got == want, "contents", ctx); MC_CHECK(guard <= 4000, "size", ctx);
    for (auto& q : qs) {
        mc::trace(); R best = INFINITY; for (auto& o : objs) best = std::min(best, d2(o, q));
        const O& a = t.nearest(q); const O& b = c.nearest(q);
        for (const O* x : {&a, &b}) { R got = d2(*x, q); if (not(got <= best * (1 + (sizeof(T) == 8 ? 1e-13L : 1e-5L)))) mc::fail("nearest", mc::str(ctx, ": nearest to ", str(q), " is ", str(*x), " at ", std::sqrt(got), " but another is at ", std::sqrt(best))); if (not want.count(str(*x))) mc::fail("nearest", mc::str(ctx, ": not an object of the tree")); }
    }
}
template <typename O> static void run(const char* what, const std::vector<O>& pool, const std::vector<V_>& qs, int maxn, const std::vector<int>& sizes) {
    typedef KDTree<T, M, O> K;
    std::vector<typename K::KDStructureParams> par;
    for (auto a : {KDAxisChoice::AXIS_LONGEST, KDAxisChoice::AXIS_HIGHEST_VARIANCE, KDAxisChoice::AXIS_CYCLICAL}) for (auto p : {KDPivotChoice::PIVOT_MEAN, KDPivotChoice::PIVOT_MEDIAN}) for (auto i : {KDInsertionChoice::INSERT_SMALLEST_VOLUME_INCREASE, KDInsertionChoice::INSERT_SHORTEST_DISTANCE}) for (int na : {2, 3}) for (int la : {1, 2}) par.push_back({a, p, i, na, la});
    par.push_back({KDAxisChoice::AXIS_LONGEST, KDPivotChoice::PIVOT_MEAN, KDInsertionChoice::INSERT_SHORTEST_DISTANCE, 16, 1}); par.push_back({KDAxisChoice::AXIS_CYCLICAL, KDPivotChoice::PIVOT_MEDIAN, KDInsertionChoice::INSERT_SHORTEST_DISTANCE, 40, 2});
    mc::bound(mc::str("parameter sets"), par.size()); mc::bound(mc::str(what, " pool"), pool.size()); mc::bound(mc::str(what, " multisets up to"), maxn);
    auto all = [&](const std::vector<O>& s, const std::string& nm) {
        for (size_t k = 0; k < par.size(); ++k) {
            ctx = mc::str(what, " ", nm, " parameters ", k);
            bool ins2 = par[k].insert == KDInsertionChoice::INSERT_SMALLEST_VOLUME_INCREASE;
            if (ins2) { std::vector<O> raw = s; K t(raw.data(), (index_t)raw.size(), par[k]); verify<O>(t, s, qs); t.rebalance(); verify<O>(t, s, qs); ctx += " rebalanced"; t.rebalance(par[(k * 7 + 3) % par.size()]); verify<O>(t, s, qs); }
            if (k == 0) { ctx = mc::str(what, " ", nm, " default tree, inserted"); K t; for (auto& o : s) t.insert(t.begin(), o); verify<O>(t, s, qs); }
            // every way to cut the sequence into built part and inserted part
            for (size_t cut = 1; cut < s.size(); cut += s.size() > 6 ? s.size() - 2 : 1) { ctx = mc::str(what, " ", nm, " parameters ", k, " built from ", cut, " then inserted"); K t(s.begin(), s.begin() + cut, par[k]); for (size_t i = cut; i < s.size(); ++i) { auto it = t.insert(t.begin(), s[i]); if (str(*it) != str(s[i])) mc::fail("inserted object", mc::str(ctx, ": the insertion of ", str(s[i]), " returned ", str(*it))); } verify<O>(t, s, qs); }
        }
    };
    // all multisets (as non-decreasing sequences), and their reversals
    std::vector<size_t> ix;
    std::function<void(size_t)> rec = [&](size_t lo) {
        if (not ix.empty() and mc::begin("multiset", IDX++)) { std::vector<O> s; std::string nm; for (size_t i : ix) { s.push_back(pool[i]); nm += str(pool[i]); } all(s, nm); std::reverse(s.begin(), s.end()); if (ix.size() > 1 and mc::thorough()) all(s, nm + " reversed"); }
        if ((int)ix.size() == maxn) return;
        for (size_t i = lo; i < pool.size(); ++i) { ix.push_back(i); rec(i); ix.pop_back(); }
    };
    rec(0);
    // larger sets: arithmetic strides through the pool
    for (int n : sizes) for (size_t st = 1; st < pool.size(); st += 1 + pool.size() / 6) for (size_t of = 0; of < pool.size(); of += 1 + pool.size() / 4) { if (not mc::begin("large", IDX++)) continue; std::vector<O> s; for (int i = 0; i < n; ++i) s.push_back(pool[(of + i * st) % pool.size()]); all(s, mc::str(n, " objects, stride ", st, " from ", of)); }
}
/// hand-made structure: every history of adding children and inserting objects at any node
static void manual(const std::vector<V_>& pool, const std::vector<V_>& qs) {
    typedef KDTree<T, M, V_> K; const int depth = mc::tier(5, 6); const size_t maxn = 4; mc::bound("hand-made histories up to", depth);
    struct Op { bool child; int node, pt; };
    for (int arity : {4, 2}) for (auto ins : {KDInsertionChoice::INSERT_SMALLEST_VOLUME_INCREASE, KDInsertionChoice::INSERT_SHORTEST_DISTANCE}) {
        typename K::KDStructureParams par{KDAxisChoice::AXIS_LONGEST, KDPivotChoice::PIVOT_MEAN, ins, arity, arity}; std::vector<Op> h;
        auto nodes = [](K& t) { std::vector<typename K::node_iterator> o{t.begin()}; for (size_t i = 0; i < o.size() and i < 50; ++i) { auto b = o[i].begin(), e = o[i].end(); for (; b.operator->() != e.operator->() and o.size() < 50; ++b) o.push_back(b); } return o; };
        std::function<void()> rec = [&] {
            if (not h.empty() and mc::begin("by hand", IDX++)) {
                V_* none = nullptr; K t(none, 0, par); std::vector<V_> objs; ctx = mc::str("by hand, arity ", arity, ", ", ins == KDInsertionChoice::INSERT_SHORTEST_DISTANCE ? "distance" : "volume", ":"); bool bad = false;
                for (auto& o : h) { auto ns = nodes(t); if (o.node >= (int)ns.size()) { bad = true; break; } if (o.child) { ctx += mc::str(" child of ", o.node); auto c = t.insertChild(ns[o.node]); auto up = c; -up; MC_CHECK(up.operator->() == ns[o.node].operator->(), "inserted child", ctx); } else { ctx += mc::str(" ", str(pool[o.pt]), " at ", o.node); auto it = t.insert(ns[o.node], pool[o.pt]); MC_CHECK(*it == pool[o.pt], "inserted object", ctx); objs.push_back(pool[o.pt]); } }
                if (not bad) { if (objs.empty()) { std::vector<V_> q; verify<V_>(t, objs, q, true); } else verify<V_>(t, objs, qs, true); }
            }
            if ((int)h.size() == depth) return;
            // nodes known to exist: the root and the children added so far (splits may add more)
            int n = 1; for (auto& o : h) n += o.child; for (int i = 0; i < n; ++i) { if (n < (int)maxn + 1) { h.push_back({true, i, 0}); rec(); h.pop_back(); } for (int p = 0; p < mc::tier(2, 3); ++p) { h.push_back({false, i, p}); rec(); h.pop_back(); } }
        };
        rec();
    }
}
void mc_run() {
    IDX = 0; mc::bound("dimension", M);
    std::vector<T> ax = M == 1 ? std::vector<T>{-2, 0, (T)0.5, 1, 3} : M == 2 ? std::vector<T>{-1, 0, 2} : std::vector<T>{0, 1};
    std::vector<V_> pool, qs; lat::tuples<M, T>(ax, [&](const std::array<T, M>& a) { pool.push_back(v(a)); });
    if (M == 3) { std::array<T, 3> e{-2, (T)0.5, 3}; V_ x; for (int i = 0; i < M; ++i) x[i] = e[i]; pool.push_back(x); }
    std::vector<T> aq = M == 1 ? std::vector<T>{-3, -1, (T)0.2, (T)0.5, 2, 5} : M == 2 ? std::vector<T>{-2, (T)-0.4, (T)0.6, (T)2.5} : M == 3 ? std::vector<T>{(T)-0.6, (T)0.3, 2} : std::vector<T>{(T)-0.6, (T)1.3};
    lat::tuples<M, T>(aq, [&](const std::array<T, M>& a) { qs.push_back(v(a)); });
    std::vector<V_> few; for (size_t i = 0; i < qs.size(); i += 2) few.push_back(qs[i]);
    manual({pool[0], pool[pool.size() - 1], pool[pool.size() / 2]}, few);
    std::vector<int> sizes = mc::thorough() ? std::vector<int>{9, 17, 33, 64} : std::vector<int>{9, 20};
    run<V_>("points", pool, qs, mc::tier(M >= 3 ? 6 - M : 4, M >= 3 ? 7 - M : 5), sizes);
    std::vector<B_> boxes; for (size_t i = 0; i < pool.size(); i += 1 + pool.size() / 6) for (T e : {(T)0, (T)0.75, (T)2}) { V_ h = pool[i]; for (int k = 0; k < M; ++k) h[k] += k ? e / 2 : e; boxes.push_back(B_(pool[i], h)); }
    run<B_>("boxes", boxes, few, mc::tier(2, 3), sizes);
    std::vector<std::pair<V_, int>> pv; for (size_t i = 0; i < pool.size(); ++i) pv.push_back({pool[i], (int)i}); run<std::pair<V_, int>>("pairs", pv, few, 2, sizes);
    std::vector<const B_*> pb; for (auto& b : boxes) pb.push_back(&b); run<const B_*>("pointers", pb, few, 1, sizes);
    std::vector<Sphere<T, M>> sp; for (size_t i = 0; i < pool.size(); i += 1 + pool.size() / 5) for (T r : {(T)0.5, (T)1.25}) sp.push_back(Sphere<T, M>(pool[i], r)); run<Sphere<T, M>>("balls", sp, few, 2, sizes);
}
