#include "elem.h"
#include <memory>
#include <deque>
#include <geomc/Deque.h>
using namespace geom;

#ifndef DN
#define DN 2
#endif

template <typename T, index_t N, int LIM, bool TWO>
struct Sys {
    typedef Deque<T, N> D;
    std::optional<D> a, b;
    std::deque<int> ma, mb;
    int next = 1;
    bool with_lifetimes;

    Sys() { if constexpr (std::is_same_v<T, Elem>) reg().reset(); std::memset((void*)&a, 0, sizeof a); std::memset((void*)&b, 0, sizeof b); a.emplace(); b.emplace(); }

    enum Op { PB, PF, XB, XF, CLR, RES1, RES2, CPY, MOV, SELF_B, SELF_F, SELF_ASG, ASG_AB, MASG_AB, RECAP, RANGE, SWAP, SELF_MASG, NOPS };
    static const char* name(int o) {
        static const char* n[] = {"push_back", "push_front", "pop_back", "pop_front", "clear", "reserve+1", "reserve*2",
            "copy_construct", "move_construct", "push_back_own_last", "push_front_own_last", "self_assign", "b=a", "b=move(a)", "new_with_capacity", "from_range", "swap_a_b", "self_move_assign"};
        return n[o];
    }
    static int n_ops() { return NOPS; }
    static std::string op_name(int o) { return name(o); }
    static constexpr bool copyable = std::is_copy_constructible_v<T>;
    bool enabled(int o) const {
        switch (o) {
            case PB: case PF: return (int)ma.size() < LIM;
            case SELF_B: case SELF_F: return copyable and !ma.empty() and (int)ma.size() < LIM;
            case RES1: case RES2: return a->capacity() < 2 * LIM;
            case CPY: case SELF_ASG: case RANGE: return copyable;
            case ASG_AB: return copyable and TWO;
            case MASG_AB: case SWAP: return TWO;
            default: return true;
        }
    }
    void cmp(D& d, const D& cd, const std::deque<int>& m, const char* who) {
        index_t n = (index_t)m.size();
        if (d.size() != n) { mc::fail("size", mc::str(who, ": size() = ", d.size(), " model ", n)); return; }
        MC_CHECK(d.capacity() >= n, "capacity", who, ": capacity ", d.capacity(), " < size ", n);
        MC_CHECK(d.capacity() >= N, "capacity-static", who, ": capacity ", d.capacity(), " < N");
        if (n == 0) return;
        for (index_t i = 0; i < n; ++i) {
            MC_CHECK(id_of(d[i]) == m[i], "element", who, "[", i, "] = ", id_of(d[i]), " model ", m[i]);
            MC_CHECK(&cd[i] == &d[i], "const-index", who, " const and mutable [] disagree at ", i);
        }
        for (index_t i : {index_t(-1), -n, -n - 1, -2 * n, index_t(-2), n, n + 1, 2 * n, 3 * n - 1}) {
            index_t j = ((i % n) + n) % n;
            MC_CHECK(id_of(cd[i]) == m[j], "wrapped-index", who, "[", i, "] = ", id_of(cd[i]), " model ", m[j]);
            MC_CHECK(&d[i] == &d[j], "wrapped-index-ref", who, "[", i, "]");
        }
        MC_CHECK(id_of(d.front()) == m.front() and &cd.front() == &d.front(), "front", who, " front");
        MC_CHECK(id_of(d.back()) == m.back() and &cd.back() == &d.back(), "back", who, " back");
        std::set<const void*> addr;
        for (index_t i = 0; i < n; ++i) addr.insert(&d[i]);
        MC_CHECK((index_t)addr.size() == n, "distinct-slots", who, " elements share storage");
    }
    void check() {
        cmp(*a, *a, ma, "a");
        if (TWO) cmp(*b, *b, mb, "b");
        if constexpr (std::is_same_v<T, Elem>) {
            size_t expect = ma.size() + mb.size();
            MC_CHECK(reg().live.size() == expect, "lifetime-live-count", "live elements ", reg().live.size(), " contained ", expect);
        }
        if constexpr (copyable) {
            bool eq = (ma == mb);
            MC_CHECK((*a == *b) == eq, "equality", "a==b gives ", !eq);
            MC_CHECK((*a != *b) == !eq, "inequality", "a!=b gives ", eq);
            MC_CHECK(*a == *a, "equality-self", "a!=a");
        }
    }
    std::vector<const void*> addrs() { std::vector<const void*> v; for (index_t i = 0; i < a->size(); ++i) v.push_back(&(*a)[i]); return v; }
    void apply(int o) {
        auto before = addrs();
        index_t cap0 = a->capacity();
        switch (o) {
            case PB: {
                index_t sz = a->size();
                if (next % 2) { T x = make<T>(next); T& r = a->push_back(std::move(x)); ma.push_back(next);
                    MC_CHECK(&r == &a->back() and id_of(r) == next, "push_back-return", "returned reference"); }
                else if constexpr (copyable) { const T x = make<T>(next); T& r = a->push_back(x); ma.push_back(next);
                    MC_CHECK(&r == &a->back() and id_of(x) == next, "push_back-return", "returned reference / source preserved"); }
                else { a->push_back(make<T>(next)); ma.push_back(next); }
                next++;
                if (sz < cap0) { auto after = addrs(); after.pop_back();
                    MC_CHECK(after == before and a->capacity() == cap0, "no-realloc-within-capacity", "push_back below capacity moved elements"); }
                break; }
            case PF: {
                index_t sz = a->size();
                if (next % 2) { T x = make<T>(next); T& r = a->push_front(std::move(x)); ma.push_front(next);
                    MC_CHECK(&r == &a->front() and id_of(r) == next, "push_front-return", "returned reference"); }
                else if constexpr (copyable) { const T x = make<T>(next); T& r = a->push_front(x); ma.push_front(next);
                    MC_CHECK(&r == &a->front() and id_of(x) == next, "push_front-return", "returned reference / source preserved"); }
                else { a->push_front(make<T>(next)); ma.push_front(next); }
                next++;
                if (sz < cap0) { auto after = addrs(); after.erase(after.begin());
                    MC_CHECK(after == before and a->capacity() == cap0, "no-realloc-within-capacity", "push_front below capacity moved elements"); }
                break; }
            case XB: { auto r = a->pop_back();
                MC_CHECK(r.has_value() == !ma.empty(), "pop_back-presence", "has_value ", r.has_value());
                if (r and !ma.empty()) { MC_CHECK(id_of(*r) == ma.back(), "pop_back-value", "got ", id_of(*r), " model ", ma.back()); ma.pop_back(); }
                break; }
            case XF: { auto r = a->pop_front();
                MC_CHECK(r.has_value() == !ma.empty(), "pop_front-presence", "has_value ", r.has_value());
                if (r and !ma.empty()) { MC_CHECK(id_of(*r) == ma.front(), "pop_front-value", "got ", id_of(*r), " model ", ma.front()); ma.pop_front(); }
                break; }
            case CLR: a->clear(); ma.clear(); break;
            case RES1: { index_t c = a->capacity() + 1; a->reserve(c); MC_CHECK(a->capacity() >= c, "reserve", "capacity ", a->capacity(), " after reserve(", c, ")"); break; }
            case RES2: { index_t c = a->size(); a->reserve(c); auto af = addrs();
                MC_CHECK(af == before and a->capacity() == cap0, "reserve-noop", "reserve(size) moved elements");
                c = a->capacity() + 3; a->reserve(c); MC_CHECK(a->capacity() >= c, "reserve", "capacity ", a->capacity(), " after reserve(", c, ")"); break; }
            case CPY: if constexpr (copyable) {
                D c(*a);
                cmp(c, c, ma, "copy"); cmp(*a, *a, ma, "copy-source");
                // independence: mutate the copy
                if (!ma.empty()) { c.pop_front(); c.push_back(make<T>(-7)); cmp(*a, *a, ma, "copy-source after mutating the copy"); }
                c.clear(); a->clear(); cmp(*a, *a, {}, "cleared");
                D d2(*a); cmp(d2, d2, {}, "copy of empty");
                // restore through a copy again so the surviving object is itself a copy
                for (int v : ma) c.push_back(make<T>(v));
                a.reset(); std::memset((void*)&a, 0, sizeof a); a.emplace(c);
                } break;
            case MOV: { D c(std::move(*a)); cmp(c, c, ma, "moved-to"); cmp(*a, *a, {}, "moved-from");
                a->push_back(make<T>(-3)); cmp(*a, *a, {-3}, "moved-from reused"); a->clear();
                a.reset(); std::memset((void*)&a, 0, sizeof a); a.emplace(std::move(c)); break; }
            case SELF_B: if constexpr (copyable) { int v = ma.back(); a->push_back(a->back()); ma.push_back(v); } break;
            case SELF_F: if constexpr (copyable) { int v = ma.back(); a->push_front(a->back()); ma.push_front(v); } break;
            case SELF_ASG: if constexpr (copyable) { D& r = *a; *a = r; } break;
            case ASG_AB: if constexpr (copyable) { D& r = (*b = *a); mb = ma; MC_CHECK(&r == &*b, "assign-return", "operator= return"); } break;
            case MASG_AB: { D& r = (*b = std::move(*a)); mb = ma; ma.clear(); MC_CHECK(&r == &*b, "assign-return", "operator=(&&) return"); break; }
            case RECAP: { index_t c = N + 2; a.reset(); std::memset((void*)&a, 0, sizeof a); a.emplace(c); ma.clear(); MC_CHECK(a->capacity() >= c, "ctor-capacity", "capacity"); break; }
            case RANGE: if constexpr (copyable) { std::vector<T> src; int k = next % 4; ma.clear();
                src.reserve(8);
                for (int i = 0; i < k; ++i) { src.push_back(make<T>(next)); ma.push_back(next); next++; }
                a.reset(); std::memset((void*)&a, 0, sizeof a); a.emplace(src.begin(), (index_t)k); } break;
            case SWAP: std::swap(*a, *b); std::swap(ma, mb); break;
            case SELF_MASG: { D& r = *a; *a = std::move(r); break; }
        }
        check();
    }
    uint64_t key() {
        uint64_t h = mc::mix(ma.size(), mb.size());
        h = mc::mix(h, image_key(&*a, sizeof(D)));
        if (TWO) h = mc::mix(h, image_key(&*b, sizeof(D)));
        h = mc::mix(h, next % 4);
        h = mc::mix(h, ma == mb);
        return h;
    }
    void finish() {
        a.reset(); b.reset();
        if constexpr (std::is_same_v<T, Elem>)
            MC_CHECK(reg().live.empty(), "lifetime-leak", reg().live.size(), " elements never destroyed");
    }
};

void mc_run() {
    static char gb[64], gs[64], g2[64];
    std::snprintf(gb, 64, "deque-bfs-N%d", DN);
    std::snprintf(g2, 64, "two-deques-bfs-N%d", DN);
    std::snprintf(gs, 64, "deque-allseq-N%d", DN);
    if (mc::part("bfs")) {
        mc::bfs<Sys<Elem, DN, DN + 5, false>>(gb, 40, mc::tier(20000, 200000));
    }
    if (mc::part("two")) {
        mc::bfs<Sys<Elem, DN, DN + 2, true>>(g2, 40, mc::tier(15000, 150000));
    }
    if (mc::part("seq")) {
        mc::all_sequences<Sys<Elem, DN, 99, true>>(gs, mc::tier(4, 5));
        mc::all_sequences<Sys<std::string, DN, 99, true>>("deque-allseq-string", mc::tier(3, 4));
        mc::all_sequences<Sys<int, DN, 99, true>>("deque-allseq-int", mc::tier(3, 4));
        mc::all_sequences<Sys<std::unique_ptr<int>, DN, 99, true>>("deque-allseq-moveonly", mc::tier(4, 5));
    }
}
