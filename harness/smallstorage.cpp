#include "elem.h"
#include <memory>
#include <vector>
#include <geomc/SmallStorage.h>
using namespace geom;

#ifndef DN
#define DN 2
#endif

template <typename T, size_t N, int LIM, bool TWO>
struct Sys {
    typedef SmallStorage<T, N> D;
    std::optional<D> a, b;
    std::vector<int> ma, mb;
    int next = 1;
    static constexpr bool el = std::is_same_v<T, Elem>;
    static constexpr bool copyable = std::is_copy_constructible_v<T>;
    void wipe() { a.reset(); std::memset((void*)&a, 0, sizeof a); }
    Sys() { if constexpr (el) reg().reset(); std::memset((void*)&a, 0, sizeof a); std::memset((void*)&b, 0, sizeof b); a.emplace(); b.emplace(); }

    enum Op { PB, EB, XB, CLR, RES1, RES0, GROW, GROWV, SHRINK, CPY, MOV, SELF_B, SELF_ASG, SELF_MASG, ASG_AB, MASG_AB, SWAP, CTOR_N, CTOR_ARR, CTOR_VAL, CTOR_IL, WRITE, EB_OWN, GROW_OWN, NOPS };
    static int n_ops() { return NOPS; }
    static std::string op_name(int o) {
        static const char* n[] = {"push_back", "emplace_back", "pop_back", "clear", "reserve(cap+1)", "reserve(size)", "resize+2", "resize+1(value)", "resize-1",
            "copy_construct", "move_construct", "push_back_own", "self_assign", "self_move_assign", "b=a", "b=move(a)", "swap_a_b", "construct(n)", "construct(array,n)", "construct(value,n)", "construct{list}", "write", "emplace_back_own", "resize+2(own)"};
        return n[o];
    }
    bool enabled(int o) const {
        switch (o) {
            case PB: case CTOR_ARR: case CTOR_VAL: case CTOR_IL: case GROWV: if (!copyable) return false; break;
            case CPY: case SELF_ASG: return copyable;
            case ASG_AB: return copyable and TWO;
            case MASG_AB: case SWAP: return TWO;
            case SELF_B: case EB_OWN: case GROW_OWN: if (!copyable or ma.empty()) return false; break;
            case SHRINK: case WRITE: return !ma.empty();
            case RES1: return a->capacity() < 2 * LIM;
        }
        if (o == PB or o == EB or o == SELF_B or o == EB_OWN) return (int)ma.size() < LIM;
        if (o == GROW or o == GROWV or o == GROW_OWN) return (int)ma.size() < LIM - 1;
        return true;
    }
    static constexpr int DEF = el ? (int)0xFFFF0000u : 0;
    static int defid() { if constexpr (el) { return (int)0xFFFF0000u; } else if constexpr (std::is_same_v<T, int>) return 0; else return -1; }
    void cmp(D& d, const D& cd, const std::vector<int>& m, const char* who) {
        size_t n = m.size();
        if (d.size() != n) { mc::fail("size", mc::str(who, ": size() = ", d.size(), " model ", n)); return; }
        MC_CHECK(d.capacity() >= n and d.capacity() >= N, "capacity", who, ": capacity ", d.capacity());
        MC_CHECK(d.empty() == (n == 0), "empty", who);
        MC_CHECK(D::static_capacity() == N, "static-capacity", who);
        MC_CHECK((size_t)(d.end() - d.begin()) == n and (size_t)(cd.end() - cd.begin()) == n, "begin-end", who, " iterator range");
        MC_CHECK(d.begin() == d.data() and cd.data() == d.data(), "data", who);
        bool inl = (char*)d.data() >= (char*)&d and (char*)d.data() < (char*)(&d + 1);
        MC_CHECK(inl or d.capacity() > N, "inline-buffer", who, " heap used though capacity is ", d.capacity());
        MC_CHECK(!(inl and d.capacity() > N), "inline-overrun", who, " inline buffer with capacity ", d.capacity());
        size_t i = 0;
        for (const T& t : cd) { MC_CHECK(id_of(t) == m[i], "element", who, " iter[", i, "] = ", id_of(t), " model ", m[i]); ++i; }
        for (i = 0; i < n; ++i) MC_CHECK(id_of(d[i]) == m[i] and &cd[i] == &d[i] and &d[i] == d.begin() + i, "index", who, "[", i, "] = ", id_of(d[i]), " model ", m[i]);
        if (n) MC_CHECK(&d.front() == d.begin() and &cd.front() == &d.front() and &d.back() == d.end() - 1 and &cd.back() == &d.back(), "front-back", who);
    }
    void check() {
        cmp(*a, *a, ma, "a");
        if (TWO) cmp(*b, *b, mb, "b");
        if constexpr (el)
            MC_CHECK(reg().live.size() == ma.size() + mb.size(), "lifetime-live-count", "live elements ", reg().live.size(), " contained ", ma.size() + mb.size());
        if constexpr (copyable) { MC_CHECK((*a == *b) == (ma == mb), "equality", "a==b gives ", ma != mb); MC_CHECK(*a == *a, "equality-self", ""); 
            D c(*a); MC_CHECK(c == *a, "copy-equality", ""); }
    }
    void apply(int o) {
        const T* p0 = a->data(); size_t cap0 = a->capacity(), sz0 = a->size();
        switch (o) {
            case PB: if constexpr (copyable) { const T x = make<T>(next); T& r = a->push_back(x); ma.push_back(next);
                MC_CHECK(&r == &a->back() and id_of(r) == next and id_of(x) == next, "push_back-return", ""); next++; } break;
            case EB: { if constexpr (el) { T& r = a->emplace_back(next); ma.push_back(next); MC_CHECK(&r == &a->back(), "emplace_back-return", ""); }
                else { T& r = a->emplace_back(make<T>(next)); ma.push_back(next); MC_CHECK(&r == &a->back(), "emplace_back-return", ""); } next++; break; }
            case XB: { auto r = a->pop_back(); MC_CHECK(r.has_value() == !ma.empty(), "pop_back-presence", "");
                if (r and !ma.empty()) { MC_CHECK(id_of(*r) == ma.back(), "pop_back-value", "got ", id_of(*r), " model ", ma.back()); ma.pop_back(); } break; }
            case CLR: a->clear(); ma.clear(); MC_CHECK(a->data() == p0 and a->capacity() == cap0, "clear-keeps-storage", ""); break;
            case RES1: { size_t c = cap0 + 1; a->reserve(c); MC_CHECK(a->capacity() >= c, "reserve", "capacity ", a->capacity(), " after reserve ", c); break; }
            case RES0: a->reserve(sz0); MC_CHECK(a->data() == p0 and a->capacity() == cap0, "reserve-noop", ""); break;
            case GROW: a->resize(sz0 + 2); for (int i = 0; i < 2; ++i) ma.push_back(defid()); break;
            case GROWV: if constexpr (copyable) { T x = make<T>(next); a->resize(sz0 + 1, x); ma.push_back(next); next++; } break;
            case SHRINK: a->resize(sz0 - 1); ma.pop_back(); MC_CHECK(a->data() == p0, "resize-shrink-keeps-storage", ""); break;
            case CPY: if constexpr (copyable) { D c(*a); cmp(c, c, ma, "copy"); cmp(*a, *a, ma, "copy-source");
                if (!ma.empty()) { c.pop_back(); c.push_back(make<T>(-7)); cmp(*a, *a, ma, "copy-source after mutating the copy"); c.pop_back(); c.push_back(make<T>(ma.back())); }
                wipe(); a.emplace(c); } break;
            case MOV: { D c(std::move(*a)); cmp(c, c, ma, "moved-to"); cmp(*a, *a, {}, "moved-from");
                a->emplace_back(make<T>(-3)); cmp(*a, *a, {-3}, "moved-from reused"); a->clear(); wipe(); a.emplace(std::move(c)); break; }
            case SELF_B: if constexpr (copyable) { int v = ma.front(); a->push_back(a->front()); ma.push_back(v); } break;
            case EB_OWN: if constexpr (copyable) { int v = ma.front(); T& r = a->emplace_back(a->front()); ma.push_back(v);
                MC_CHECK(&r == &a->back(), "emplace_back-return", ""); } break;
            case GROW_OWN: if constexpr (copyable) { int v = ma.back(); a->resize(sz0 + 2, a->back()); ma.push_back(v); ma.push_back(v); } break;
            case SELF_ASG: if constexpr (copyable) { D& r = *a; *a = r; } break;
            case SELF_MASG: { D& r = *a; *a = std::move(r); break; }
            case ASG_AB: if constexpr (copyable) { D& r = (*b = *a); mb = ma; MC_CHECK(&r == &*b, "assign-return", ""); } break;
            case MASG_AB: { D& r = (*b = std::move(*a)); mb = ma; ma.clear(); MC_CHECK(&r == &*b, "assign-return", ""); break; }
            case SWAP: std::swap(*a, *b); std::swap(ma, mb); break;
            case CTOR_N: { size_t k = next++ % 5; wipe(); a.emplace(k); ma.assign(k, defid()); break; }
            case CTOR_ARR: if constexpr (copyable) { std::vector<T> v; v.reserve(8); size_t k = next % 5; ma.clear();
                for (size_t i = 0; i < k; ++i) { v.push_back(make<T>(next)); ma.push_back(next); next++; } next++;
                wipe(); a.emplace((const T*)v.data(), k); } break;
            case CTOR_VAL: if constexpr (copyable) { T x = make<T>(next); size_t k = next % 5; wipe(); a.emplace((const T&)x, k); ma.assign(k, next); next++; } break;
            case CTOR_IL: if constexpr (copyable) { wipe(); 
                if (next % 2) { a.emplace(std::initializer_list<T>{make<T>(1), make<T>(2), make<T>(3)}); ma = {1, 2, 3}; }
                else { a.emplace(std::initializer_list<T>{make<T>(4)}); ma = {4}; } next++; } break;
            case WRITE: (*a)[sz0 / 2] = make<T>(next); ma[sz0 / 2] = next; next++; break;
        }
        if ((o == PB or o == EB or o == SELF_B or o == EB_OWN) and sz0 < cap0)
            MC_CHECK(a->data() == p0 and a->capacity() == cap0, "no-realloc-within-capacity", op_name(o), " below capacity moved the elements");
        check();
    }
    uint64_t key() {
        uint64_t h = mc::mix(ma.size(), mb.size());
        h = mc::mix(h, image_key(&*a, sizeof(D)));
        if (TWO) h = mc::mix(h, image_key(&*b, sizeof(D)));
        h = mc::mix(h, next % 5); h = mc::mix(h, next % 2);
        return mc::mix(h, ma == mb);
    }
    void finish() {
        a.reset(); b.reset();
        if constexpr (el) MC_CHECK(reg().live.empty(), "lifetime-leak", reg().live.size(), " elements never destroyed");
    }
};

void mc_run() {
    static char gb[64], gs[64], g2[64];
    std::snprintf(gb, 64, "small-bfs-N%d", DN);
    std::snprintf(g2, 64, "two-small-bfs-N%d", DN);
    std::snprintf(gs, 64, "small-allseq-N%d", DN);
    if (mc::part("bfs")) mc::bfs<Sys<Elem, DN, DN + 5, false>>(gb, 40, mc::tier(20000, 200000));
    if (mc::part("two")) mc::bfs<Sys<Elem, DN, DN + 2, true>>(g2, 40, mc::tier(15000, 150000));
    if (mc::part("seq")) {
        mc::all_sequences<Sys<Elem, DN, 99, true>>(gs, mc::tier(4, 5));
        mc::all_sequences<Sys<std::string, DN, 99, true>>("small-allseq-string", mc::tier(3, 4));
        mc::all_sequences<Sys<int, DN, 99, true>>("small-allseq-int", mc::tier(3, 4));
        mc::all_sequences<Sys<std::unique_ptr<int>, DN, 99, true>>("small-allseq-moveonly", mc::tier(4, 5));
    }
}
