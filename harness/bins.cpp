// C26: the binned spatial partition against a linear scan over the same history.
#include "mc.h"
#include "lat.h"
#include <geomc/linalg/Vec.h>
#include <geomc/shape/BinLatticePartition.h>
#include <set>
using namespace geom;
#ifndef ET
#define ET double
#endif
typedef ET T;
static constexpr int M = MCP;
static uint64_t IDX;
typedef std::array<T, M> P_;
typedef BinLatticePartition<T, M, int> Bins;
typedef Bins::point_t pt_; typedef Bins::bin_t bin_;
static pt_ v(const P_& p) { pt_ o; for (int i = 0; i < M; ++i) PointType<T, M>::iterator(o)[i] = p[i]; return o; }
static P_ arr(pt_ p) { P_ o; for (int i = 0; i < M; ++i) o[i] = PointType<T, M>::iterator(p)[i]; return o; }
typedef std::multimap<int, P_> Model;   // id -> place
static std::array<index_t, M> cell(const P_& p, T cs) { std::array<index_t, M> o; for (int i = 0; i < M; ++i) o[i] = (index_t)std::floor((long double)p[i] / (long double)cs); return o; }
static std::string show(const std::multiset<int>& s) { std::string o = "{"; for (int x : s) o += mc::str(x, " "); return o + "}"; }
static std::string ctx;

static void check(Bins& b, const Model& m, T cs, const std::vector<std::pair<P_, P_>>& boxes, const std::vector<std::pair<P_, T>>& near) {
    std::multiset<int> all; for (auto& e : m) all.insert(e.first);
    mc::state();
    { std::multiset<int> got; bool place = true; for (auto& e : b) { got.insert(e.second); auto it = m.find(e.second); place = place and it != m.end() and it->second == arr(e.first); } mc::step(); if (got != all or not place or b.size() != all.size()) mc::fail("iteration", mc::str(ctx, ": iterates ", show(got), " holds ", show(all), " size ", b.size())); 
      size_t n = 0; for (auto i = b.binsBegin(); i != b.binsEnd(); ++i) { ++n; MC_CHECK(i->first == b.binOf(i->second.first), "bin", ctx); } MC_CHECK(n == all.size(), "bins", ctx); }
    auto region = [&](const char* what, typename Bins::region_iterator q, const P_& lo, const P_& hi) {
        mc::trace(); std::multiset<int> got, must, may; bool empty = false; auto cl = cell(lo, cs), ch = cell(hi, cs); for (int i = 0; i < M; ++i) empty = empty or lo[i] > hi[i];
        for (auto& e : m) { bool in = not empty, touch = not empty; auto c = cell(e.second, cs); for (int i = 0; i < M; ++i) { in = in and e.second[i] >= lo[i] and e.second[i] <= hi[i]; touch = touch and c[i] >= cl[i] and c[i] <= ch[i]; } if (in) must.insert(e.first); if (touch) may.insert(e.first); }
        int guard = 0; bool place = true, bins = true;
        for (auto i = q.begin(), e = q.end(); i != e and guard < 100; ++i, ++guard) { got.insert(i->second); auto it = m.find(i->second); place = place and it != m.end() and it->second == arr(i->first); bin_ cb = i.current_bin(); auto c = cell(arr(i->first), cs); for (int k = 0; k < M; ++k) bins = bins and PointType<index_t, M>::iterator(cb)[k] == c[k]; typename Bins::iterator w = i; bins = bins and (*w).second == i->second; }
        int direct = 0; for (auto i = q, e = q.end(); i != e and direct < 100; ++i) ++direct;
        mc::step(); bool ok = got == may and place and bins and direct == (int)got.size();
        for (int x : must) ok = ok and got.count(x) == 1;
        if (not ok) mc::fail(what, mc::str(ctx, ": ", what, " [", lat::show(lo), ", ", lat::show(hi), "] returns ", show(got), " in the region ", show(must), " in its bins ", show(may), " places ", place, " bins ", bins, " count ", direct));
    };
    for (auto& r : boxes) region("query", b.query(Rect<T, M>(v(r.first), v(r.second))), r.first, r.second);
    for (auto& r : near) { P_ lo, hi; for (int i = 0; i < M; ++i) { lo[i] = r.first[i] - r.second; hi[i] = r.first[i] + r.second; } region("radius query", b.query(v(r.first), r.second), lo, hi); }
}
static std::string name(int o, int K) { return o < K ? mc::str("insert", o) : o == K ? "erase-first" : o == K + 1 ? "erase-last" : o == K + 2 ? "erase-found" : o == K + 3 ? "copy" : "clear"; }
void mc_run() {
    IDX = 0; int depth = mc::tier(4, 5);
    std::vector<T> cs{(T)0.5, (T)1, (T)0.75};
    std::vector<P_> keys; { std::vector<std::vector<T>> raw{{0, 0, 0, 0}, {1, (T)0.5, (T)-0.5, (T)0.75}, {(T)-0.5, -1, (T)0.25, (T)-1.25}, {(T)0.25, (T)0.5, 1, (T)0.5}, {(T)-0.25, (T)1.5, 0, 0}}; for (auto& r : raw) { P_ p; for (int i = 0; i < M; ++i) p[i] = r[i]; keys.push_back(p); } }
    while (M >= 3 and keys.size() > 7 - M) keys.pop_back();
    std::vector<std::pair<P_, P_>> boxes; std::vector<T> ax = M == 1 ? std::vector<T>{-1, (T)-0.5, (T)-0.25, 0, (T)0.5, (T)0.75, 1} : M == 2 ? std::vector<T>{-1, (T)-0.25, 0, (T)0.5, (T)1.25} : M == 3 ? std::vector<T>{(T)-0.5, 0, 1} : std::vector<T>{(T)-0.5, 1};
    std::vector<P_> cor; lat::tuples<M, T>(ax, [&](const P_& a) { cor.push_back(a); });
    for (auto& a : cor) for (auto& b : cor) { bool rev = false; for (int i = 0; i < M; ++i) rev = rev or a[i] > b[i]; if (not rev or &a - &cor[0] == (&b - &cor[0]) + 1) boxes.push_back({a, b}); }
    std::vector<std::pair<P_, T>> near; for (auto& a : cor) for (T r : {(T)0, (T)0.25, (T)0.5, (T)2}) near.push_back({a, r});
    // thin the query set on every inner node, use all of it on every state with a distinct content
    int K = keys.size(), OPS = K + 5; mc::bound("operations", OPS); mc::bound("history depth", depth); mc::bound("query boxes", boxes.size()); mc::bound("radius queries", near.size()); mc::bound("bin sizes", cs.size()); mc::bound("dimension", M);
    size_t total = 1; for (int i = 0; i < depth; ++i) total *= OPS;
    for (T c : cs) for (size_t h = 0; h < total; ++h) {
        if (not mc::begin("history", IDX++)) continue;
        Bins b(c); Model m; int id = 0; size_t x = h; ctx = mc::str("bins of ", c, ":"); bool noop = false;
        for (int s = 0; s < depth; ++s) {
            int o = x % OPS; x /= OPS; ctx += " " + name(o, K);
            if (o >= K and o != K + 3 and m.empty()) { noop = true; break; }
            if (o < K) { b.insert(v(keys[o]), id); m.insert({id, keys[o]}); ++id; }
            else if (o == K) { auto i = b.begin(); m.erase((*i).second); b.erase(i); }
            else if (o == K + 1) { auto i = b.begin(), n = i; while (++n != b.end()) i = n; m.erase((*i).second); b.erase(i); }
            else if (o == K + 2) { P_ p = m.rbegin()->second; auto q = b.query(v(p), (T)0); if (q == q.end()) { mc::fail("find", mc::str(ctx, ": an entry at ", lat::show(p), " is not found")); noop = true; break; } m.erase(q->second); typename Bins::iterator w = q; b.erase(w); }
            else if (o == K + 3) { Bins d(b); Bins e((T)7); e = d; b = e; d.clear(); }
            else { b.clear(); m.clear(); }
            mc::step();
        }
        if (not noop) check(b, m, c, boxes, near);
    }
}
