#include "elem.h"
#include <memory>
#include <vector>
#include <algorithm>
#include <geomc/Storage.h>
using namespace geom;

// Handles a[0..H-1] over arrays; model = which array each handle denotes + contents.
enum Pol { SHARED, UNIQUE, WRAPPED };

template <typename S> struct Tr;
#define TRAIT(S_, T_, POL_, N_, SIZED_, FROMDATA_, IL_) template <> struct Tr<S_> { typedef T_ T; static constexpr Pol pol = POL_; static constexpr index_t N = N_; static constexpr bool sized = SIZED_, fromdata = FROMDATA_, il = IL_; }
#define COMMA ,
TRAIT(Storage<Elem COMMA 0>, Elem, SHARED, 0, false, true, false);
TRAIT(Storage<Elem COMMA 3>, Elem, UNIQUE, 3, true, true, false);
TRAIT(SizedStorage<Elem COMMA 0>, Elem, SHARED, 0, true, false, false);
TRAIT(SizedStorage<Elem COMMA 3>, Elem, UNIQUE, 3, true, false, false);
TRAIT(UniqueStorage<Elem COMMA 0>, Elem, UNIQUE, 0, true, true, true);
TRAIT(UniqueStorage<Elem COMMA 3>, Elem, UNIQUE, 3, true, true, true);
TRAIT(WrappedStorage<Elem COMMA 0>, Elem, WRAPPED, 0, true, true, false);
TRAIT(WrappedStorage<Elem COMMA 3>, Elem, WRAPPED, 3, true, true, false);
typedef GenericStorage<Elem, 0, STORAGE_SHARED> GS0; typedef GenericStorage<Elem, 3, STORAGE_SHARED> GS3;
typedef GenericStorage<Elem, 0, STORAGE_UNIQUE> GU0; typedef GenericStorage<Elem, 3, STORAGE_UNIQUE> GU3;
typedef GenericStorage<Elem, 0, STORAGE_WRAPPED> GW0; typedef GenericStorage<Elem, 3, STORAGE_WRAPPED> GW3;
TRAIT(GS0, Elem, SHARED, 0, false, true, true); TRAIT(GS3, Elem, UNIQUE, 3, true, true, true);
TRAIT(GU0, Elem, UNIQUE, 0, true, true, true); TRAIT(GU3, Elem, UNIQUE, 3, true, true, true);
TRAIT(GW0, Elem, WRAPPED, 0, true, true, false); TRAIT(GW3, Elem, WRAPPED, 3, true, true, false);

template <typename S>
struct Sys {
    typedef Tr<S> R;
    typedef typename R::T T;
    static constexpr Pol pol = R::pol;
    static constexpr int H = 3;
    struct Arr { std::vector<int> v; bool known = true; };
    std::optional<S> h[H];
    std::shared_ptr<Arr> m[H];            // null: dead or empty handle (moved-from dynamic)
    bool alive[H] = {false, false, false};
    // caller memory for wrapped storage
    std::vector<T> ext[2];
    std::shared_ptr<Arr> mext[2];
    int next = 1;

    Sys() {
        reg().reset();
        if (pol == WRAPPED) for (int k = 0; k < 2; ++k) {
            index_t n = R::N ? R::N : 2 + k;
            ext[k].reserve(n); mext[k] = std::make_shared<Arr>();
            for (index_t i = 0; i < n; ++i) { ext[k].emplace_back(next); mext[k]->v.push_back(next++); }
        }
    }
    // ops: new0/new2/newdata/newlist i ; copy i<-j ; move i<-j ; assign ; massign ; write i ; kill i
    static constexpr int PER = 4;
    static int n_ops() { return H * PER + 4 * H * H + 2 * H; }
    static std::string op_name(int o) {
        static const char* nn[] = {"new(2)", "new(n,data)", "new{list}", "new(3)"};
        if (o < H * PER) return mc::str("h", o / PER, "=", nn[o % PER]);
        o -= H * PER;
        static const char* kk[] = {"copyctor", "movector", "copyassign", "moveassign"};
        if (o < 4 * H * H) return mc::str(kk[o / (H * H)], ":h", (o / H) % H, "<-h", o % H);
        o -= 4 * H * H;
        return mc::str(o < H ? "write:h" : "destroy:h", o % H);
    }
    bool enabled(int o) const {
        if (o < H * PER) {
            int i = o / PER, k = o % PER;
            if (alive[i]) return false;
            if (i > 0 and !alive[i - 1]) return false;      // symmetry: handles are filled in order
            if (k == 1) return R::fromdata;
            if (k == 2) return R::il;
            return pol != WRAPPED;
        }
        o -= H * PER;
        if (o < 4 * H * H) {
            int k = o / (H * H), i = (o / H) % H, j = o % H;
            if (!alive[j]) return false;
            if (k < 2) return !alive[i] and i != j;
            return alive[i];
        }
        o -= 4 * H * H;
        int i = o % H;
        return alive[i] and (o >= H or m[i]);
    }
    template <typename... A> void create(int i, A&&... a) { h[i].emplace(std::forward<A>(a)...); alive[i] = true; }
    void fill(int i, index_t n) {          // default-created contents are unspecified: write all
        m[i] = std::make_shared<Arr>();
        for (index_t k = 0; k < n; ++k) { (*h[i])[k] = T(next); m[i]->v.push_back(next++); }
    }
    void apply(int o) {
        int o0 = o;
        if (o < H * PER) {
            int i = o / PER, k = o % PER;
            if (k == 0 or k == 3) { if constexpr (pol != WRAPPED) { index_t n = R::N ? R::N : 2 + (k == 3); create(i, n); fill(i, n); } }
            else if (k == 1) {
                if constexpr (pol == WRAPPED) { int e = next++ % 2; create(i, (index_t)ext[e].size(), ext[e].data()); m[i] = mext[e]; }
                else if constexpr (R::fromdata) { index_t n = R::N ? R::N : 1 + next % 3; std::vector<T> src; src.reserve(4); m[i] = std::make_shared<Arr>();
                    for (index_t q = 0; q < n; ++q) { src.emplace_back(next); m[i]->v.push_back(next++); }
                    create(i, n, (const T*)src.data()); }
            } else if constexpr (R::il) { create(i, std::initializer_list<T>{T(next), T(next + 1), T(next + 2)}); m[i] = std::make_shared<Arr>(); m[i]->v = {next, next + 1, next + 2}; next += 3; }
        } else if ((o -= H * PER) < 4 * H * H) {
            int k = o / (H * H), i = (o / H) % H, j = o % H;
            auto src = m[j];
            auto dup = [&]() -> std::shared_ptr<Arr> { return (pol == UNIQUE and src) ? std::make_shared<Arr>(*src) : src; };
            auto moved = [&]() {
                // what a moved-from handle denotes: nothing for dynamic owners; statically
                // sized arrays keep (unspecified) elements; wrappers keep pointing.
                if (pol == WRAPPED) return;
                if (R::N == 0) m[j] = nullptr;
                else { m[j] = std::make_shared<Arr>(*src); m[j]->known = false; }
            };
            switch (k) {
                case 0: { const S& c = *h[j]; create(i, c); m[i] = dup(); break; }
                case 1: { create(i, std::move(*h[j])); m[i] = dup(); moved(); break; }
                case 2: { const S& c = *h[j]; S& r = (*h[i] = c); MC_CHECK(&r == &*h[i], "assign-return", ""); if (i != j) m[i] = dup(); break; }
                case 3: { S& r = *h[j]; *h[i] = std::move(r); if (i != j) { m[i] = dup(); moved(); } break; }
            }
        } else {
            o -= 4 * H * H;
            int i = o % H;
            if (o < H) { for (size_t q = 0; q < m[i]->v.size(); ++q) { (*h[i])[q] = T(next); m[i]->v[q] = next++; } m[i]->known = true; }
            else { h[i].reset(); alive[i] = false; m[i] = nullptr; }
        }
        check(op_name(o0));
    }
    void check(const std::string& op) {
        size_t expect = 0;
        std::set<Arr*> seen;
        for (int i = 0; i < H; ++i) if (alive[i]) {
            S& s = *h[i]; const S& cs = s;
            if constexpr (R::sized) {
                index_t n = m[i] ? (index_t)m[i]->v.size() : 0;
                if (m[i] or pol == UNIQUE) MC_CHECK(s.size() == n, "size", "after ", op, ": h", i, ".size() = ", s.size(), " model ", n);
            }
            if (!m[i]) continue;
            for (size_t q = 0; q < m[i]->v.size(); ++q) {
                MC_CHECK(&s[q] == s.get() + q and s.get() == cs.get(), "get", "pointer/index mismatch");
                if (m[i]->known) MC_CHECK(id_of(s[q]) == m[i]->v[q] and id_of(cs[q]) == m[i]->v[q] and id_of(s.get()[q]) == m[i]->v[q], "content",
                    "after ", op, ": h", i, "[", q, "] = ", id_of(s[q]), " model ", m[i]->v[q]);
            }
            if (seen.insert(m[i].get()).second and pol != WRAPPED) expect += m[i]->v.size();
            for (int j = 0; j < i; ++j) if (alive[j] and m[j] and !m[i]->v.empty())
                MC_CHECK((h[j]->get() == s.get()) == (m[j] == m[i]), "aliasing", "after ", op, ": h", i, " and h", j, (m[j] == m[i] ? " should share" : " must not share"), " memory");
        }
        if (pol == WRAPPED) {
            expect = ext[0].size() + ext[1].size();
            for (int k = 0; k < 2; ++k) for (size_t q = 0; q < ext[k].size(); ++q)
                MC_CHECK(id_of(ext[k][q]) == mext[k]->v[q], "caller-memory", "caller array changed");
        }
        MC_CHECK(reg().live.size() == expect, "lifetime-live-count", "after ", op, ": live elements ", reg().live.size(), " model ", expect);
    }
    uint64_t key() {
        std::map<Arr*, int> id; uint64_t k = 3;
        for (int i = 0; i < H; ++i) {
            int a = -1, n = -1, kn = 0;
            if (m[i]) { a = id.emplace(m[i].get(), (int)id.size()).first->second; n = m[i]->v.size(); kn = m[i]->known; if (pol == WRAPPED) a += 10 * (m[i] == mext[0]); }
            k = mc::mix(k, (alive[i] ? 1000 : 0) + a * 20 + n * 2 + kn);
        }
        return mc::mix(k, next % 6);
    }
    void finish() {
        for (int i = 0; i < H; ++i) h[i].reset();
        for (int k = 0; k < 2; ++k) ext[k] = std::vector<T>();
        MC_CHECK(reg().live.empty(), "lifetime-leak", reg().live.size(), " elements never destroyed");
    }
};

template <typename S> void go(const char* n, const char* n2) {
    mc::bfs<Sys<S>>(n, 30, mc::tier(4000, 40000));
    mc::all_sequences<Sys<S>>(n2, mc::tier(4, 5));
}

// Dimension<N> and constness laws on plain types
void misc() {
    mc::set_group("dimension");
    if (mc::begin("dimension", 0)) {
        for (index_t v = 0; v < 50; ++v) {
            Dimension<0>::storage_t d; Dimension<0>::set(d, v); mc::step();
            MC_CHECK(Dimension<0>::get(d) == v, "dynamic", v);
            Dimension<7>::storage_t s; Dimension<7>::set(s, v); mc::step();
            MC_CHECK(Dimension<7>::get(s) == 7, "static", v);
            mc::state();
        }
        mc::trace();
    }
}

void mc_run() {
#if MCP == 1
    { go<Storage<Elem,0>>("storage-shared-dyn", "seq-storage-shared-dyn"); go<Storage<Elem,3>>("storage-static", "seq-storage-static"); misc(); 
        go<SizedStorage<Elem,0>>("sized-dyn", "seq-sized-dyn"); go<SizedStorage<Elem,3>>("sized-static", "seq-sized-static"); }
#endif
#if MCP == 2
    { go<UniqueStorage<Elem,0>>("unique-dyn", "seq-unique-dyn"); go<UniqueStorage<Elem,3>>("unique-static", "seq-unique-static"); 
        go<WrappedStorage<Elem,0>>("wrapped-dyn", "seq-wrapped-dyn"); go<WrappedStorage<Elem,3>>("wrapped-static", "seq-wrapped-static"); }
#endif
#if MCP == 3
    { go<GS0>("generic-shared-dyn", "seq-generic-shared-dyn"); go<GS3>("generic-shared-static", "seq-generic-shared-static");
        go<GU0>("generic-unique-dyn", "seq-generic-unique-dyn"); go<GU3>("generic-unique-static", "seq-generic-unique-static");
        go<GW0>("generic-wrapped-dyn", "seq-generic-wrapped-dyn"); go<GW3>("generic-wrapped-static", "seq-generic-wrapped-static"); }
#endif
}
