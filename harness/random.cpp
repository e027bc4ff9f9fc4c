// C39: random numbers. The bit source is scripted, so that its outcomes are enumerated rather than sampled; generators are driven through every short history.
#include "mc.h"
#include "lat.h"
#include "script.h"
#include <geomc/random/RandomTools.h>
#include <geomc/random/MTRand.h>
#include <geomc/random/LCRand.h>
#include <bit>
#include <geomc/random/Xorshiro.h>
#include <geomc/function/Dual.h>
using namespace geom;
typedef long double R; typedef std::vector<uint32_t> W;
static uint64_t IDX;
static bool go(const char* g) { if (not mc::begin(g, IDX++)) return false; mc::state(); mc::trace(); return true; }
template <typename T> struct Ints {
    typedef typename std::make_unsigned<T>::type U; static constexpr int B = sizeof(T) * 8; static constexpr bool S = std::is_signed<T>::value;
    static W words(U v) { return B == 32 ? W{(uint32_t)v} : W{(uint32_t)((uint64_t)v >> 32), (uint32_t)v}; }
    static std::vector<U> bits() { std::set<U> s; const U n = mc::tier(400, 4000); for (U i = 0; i <= n; ++i) { s.insert(i); s.insert((U)(0 - i)); s.insert((U)(((U)1 << (B - 1)) + i - n / 2)); s.insert((U)(((U)3 << (B - 2)) + i - n / 2)); } for (int k = 0; k < B; ++k) for (int d = -2; d <= 2; ++d) s.insert((U)(((U)1 << k) + d)); return std::vector<U>(s.begin(), s.end()); }
    static void free(const char* name) {
        if (not go("unbounded integers")) return; std::set<T> seen; auto ws = bits(); T lo = std::numeric_limits<T>::max(), hi = std::numeric_limits<T>::lowest();
        for (U w : ws) { Script r(words(w)); T v = r.rand<T>(); mc::step(); seen.insert(v); lo = std::min(lo, v); hi = std::max(hi, v); MC_CHECK(r.used == (size_t)B / 32, "bits consumed", name, ": ", r.used, " words"); }
        MC_CHECK(seen.size() == ws.size(), "unbounded integers are a bijection of the bits", name, ": ", seen.size(), " values of ", ws.size(), " words"); MC_CHECK(lo == std::numeric_limits<T>::lowest() and hi == std::numeric_limits<T>::max(), "the extremes are reached", name, " ", lo, " ", hi);
    }
    static void below(const char* name) {
        std::set<U> hs; for (U i = 0; i <= (U)mc::tier(40, 130); ++i) { hs.insert(i); hs.insert((U)(0 - i)); } for (int k = 3; k < B; ++k) for (int d = -1; d <= 1; ++d) { hs.insert((U)(((U)1 << k) + d)); hs.insert((U)(((U)3 << (k - 1)) + d)); } for (U x : {(U)1000003, (U)641, (U)0xF0000000u, (U)(~(U)0 / 3 * 2), (U)(~(U)0 / 7 * 6)}) hs.insert(x);
        auto base = bits();
        for (U hu : hs) { T h = (T)hu; if (not go("bounded integers")) continue; std::set<U> ws(base.begin(), base.end()); U mag = S and h < 0 ? (U)(0 - hu) : hu; if (mag > 1) for (U k : {(U)1, (U)2, (U)3, (U)(~(U)0 / mag), (U)(~(U)0 / mag / 2)}) for (int d = -3; d <= 3; ++d) ws.insert((U)(k * mag + d));
            std::map<T, int> hit; Script r; size_t accepted = 0; const size_t one = B / 32;
            for (U w : ws) { r.set(words(w)); T v = r.rand<T>(h); mc::step(); bool ok = mag == 0 ? v == 0 : (S and h < 0) ? (v <= 0 and v > h) : (v >= 0 and v < h); MC_CHECK(ok, "range", name, " bound ", h, " bits ", w, ": ", v); if (r.used <= one) { ++hit[v]; ++accepted; } }
            // each value must be as likely as any other: beyond half of the bit patterns, one pattern each
            if (mag > ((U)1 << (B - 1))) for (auto& p : hit) MC_CHECK(p.second == 1, "uniform", name, " bound ", h, ": value ", p.first, " comes of ", p.second, " bit patterns, others of one");
            if (mag > 0 and mag <= 300) for (U i = 0; i < mag; ++i) MC_CHECK(hit.count(S and h < 0 ? (T)(0 - i) : (T)i), "every value is reached", name, " bound ", h, ": not ", i);
            MC_CHECK(mag == 0 or accepted * 3 >= ws.size(), "bits are not wasted", name, " bound ", h, ": ", accepted, " of ", ws.size());
        }
    }
    static void between(const char* name) {
        std::vector<T> e; for (int i = -mc::tier(7, 20); i <= mc::tier(7, 20); ++i) e.push_back(i); for (T m : {std::numeric_limits<T>::lowest(), std::numeric_limits<T>::max()}) for (int d = 0; d < 3; ++d) e.push_back(m > 0 ? m - d : m + d); e.push_back(std::numeric_limits<T>::max() / 2); e.push_back(std::numeric_limits<T>::lowest() / 2); auto ws = bits();
        for (T a : e) for (T b : e) { if (not go("integers of a range")) continue; T lo = std::min(a, b), hi = std::max(a, b); U n = (U)hi - (U)lo; std::set<T> hit; Script r; for (U w : ws) { r.set(words(w)); T v = r.rand<T>(a, b); mc::step(); if (n and r.used <= (size_t)B / 32) hit.insert(v); MC_CHECK(n == 0 ? v == lo : v >= lo and v < hi, "range", name, " from ", a, " to ", b, " bits ", w, ": ", v); } if (n and n <= 60) MC_CHECK(hit.size() == n, "every value is reached", name, " from ", a, " to ", b, ": ", hit.size(), " values"); else if (n) MC_CHECK(hit.size() > 60, "a wide range is sampled widely", name, " from ", a, " to ", b); }
    }
};
template <typename T> struct Reals {
    static void unit(const char* name) {
        // coins come from a word each; the remaining words make the mantissa
        std::vector<W> tails; for (uint32_t m : {0u, 1u, 0x1000u, 0x200u, 0x80000000u, 0xFFFFFFFFu, 0xFFFFFE00u, 0x7FFFFFFFu, 0x12345678u}) for (uint32_t m2 : {0u, 0xFFFFFFFFu}) tails.push_back({m, m2});
        R lo = 9, hi = -9;
        for (int k = 0; k <= mc::tier(160, 1100); ++k) for (int border = 0; border < 2; ++border) for (auto& t : tails) {
            if (not go("real depths")) continue; // k failed coins, then a success
            for (int low = 0; low < 2; ++low) { W w((k + 32) / 32 + 1, 0); for (size_t b = k; b < w.size() * 32; ++b) if (b == (size_t)k or border) w[b / 32] |= low ? 1u << (b % 32) : 1u << (31 - b % 32); W full(w.begin(), w.begin() + k / 32 + 1); full.insert(full.end(), t.begin(), t.end()); Script r(full); r.fill = border ? 0xFFFFFFFFu : 0; T v = r.rand<T>(); mc::step(); MC_CHECK(v >= 0 and v <= 1, "unit interval", name, " after ", k, " coins: ", v); lo = std::min(lo, (R)v); hi = std::max(hi, (R)v); }
        }
        if (go("real ends")) { Script z; z.fill = 0; T a = z.rand<T>(); z.fill = 0xFFFFFFFFu; z.used = 0; T b = z.rand<T>(); mc::step(2); MC_CHECK(a == 0 or b == 0 or std::min(a, b) < std::numeric_limits<T>::min(), "zero is reached", name, " ", a, " ", b); Script o(W{0xFFFFFFFFu, 0, 0}); T c = o.rand<T>(); MC_CHECK(c == 1 or c == (T)0.5, "one is reached", name, " ", c); }
        // uniformity: all outcomes of the leading bits fall evenly into equal parts
        if (go("real uniformity")) for (int rev = 0; rev < 2; ++rev) { std::vector<uint64_t> bin(16, 0); uint64_t bad = 0; for (uint32_t c = 0; c < 256; ++c) for (uint32_t m = 0; m < 256; ++m) { uint32_t coins = c; if (rev) { coins = 0; for (int i = 0; i < 8; ++i) coins |= ((c >> i) & 1) << (31 - i); } W w{coins, (m << 24) | 0x800000u, 0x5A5A5A5Au}; Script r(w); r.fill = 0x80000001u; T v = r.rand<T>(); mc::step(); if (not(v >= 0 and v < 1)) { ++bad; continue; } ++bin[(int)(v * 16)]; }
            bool even = bad == 0; for (auto b : bin) even = even and b == 256 * 256 / 16; static bool any = false; any = any or even; if (rev) { MC_CHECK(any, "uniform", name, ": ", lat::show(bin)); any = false; } }
    }
    static void ranges(const char* name) {
        const T mx = std::numeric_limits<T>::max(), eps = std::numeric_limits<T>::epsilon(), dn = std::numeric_limits<T>::denorm_min(); std::vector<T> e{0, (T)-0.0, 1, -1, (T)0.1, (T)-0.1, (T)0.7, 3, (T)-2.6, (T)1e-8, (T)1e8, (T)-1e7, 1 + eps, 1 - eps, (T)1e-30, dn, -dn, mx / 4, -mx / 4, (T)(1.0 / 3), (T)-33333.3, (T)2.718281828}; std::vector<W> src; for (uint32_t c : {0xFFFFFFFFu, 1u, 0x80000000u, 2u, 8u, 0u}) for (uint32_t m : {0u, 0xFFFFFFFFu, 0x80000000u, 0x12345678u, 0xAAAAAAAAu}) for (uint32_t m2 : {0u, 0xFFFFFFFFu}) src.push_back({c, m, m2});
        { W one{0xFFFFFFFFu, 0, 0}; src.push_back(one); }
        for (T a : e) { if (go("reals below a bound")) for (auto& w : src) { Script r(w); T v = r.rand<T>(a); mc::step(); MC_CHECK(a >= 0 ? v >= 0 and v <= a : v <= 0 and v >= a, "range", name, " bound ", a, ": ", v); }
            for (T b : e) { if (not go("reals of a range")) continue; std::set<T> hit; T lo = std::min(a, b), hi = std::max(a, b); for (auto& w : src) { Script r(w); T v = r.rand<T>(a, b); mc::step(); hit.insert(v); MC_CHECK(v >= lo and v <= hi, "range", name, " from ", a, " to ", b, ": ", v); } if (hi - lo > (std::abs(hi) + std::abs(lo)) * eps * 1000 and hi - lo > dn * 10000) { MC_CHECK(hit.size() >= 6, "varied", name, " from ", a, " to ", b, ": ", hit.size()); R w0 = *hit.begin(), w1 = *hit.rbegin(); MC_CHECK(w0 <= lo + 0.1L * ((R)hi - lo) and w1 >= hi - 0.1L * ((R)hi - lo), "spans its range", name, " from ", a, " to ", b, ": ", w0, " to ", w1); } } }
    }
};
static void bools() {
    for (int p = 0; p < mc::tier(4096, 65536); ++p) { if (not go("booleans")) continue; uint32_t w = p < 32 ? 1u << p : (uint32_t)p * 2654435761u; Script r(W{w, ~w}); int a = 0, b = 0; for (int i = 0; i < 32; ++i) a += r.rand<bool>(); for (int i = 0; i < 32; ++i) b += r.rand<bool>(); mc::step(64); MC_CHECK(a == std::popcount(w) and b == std::popcount(~w) and r.used == 2, "booleans are the bits of the source", "bits ", w, ": ", a, " and ", b, " of ", r.used, " words"); }
}
static void permutations() {
    // all outcomes of all draws: each permutation equally often
    for (int n = 0; n <= 4; ++n) { if (not go("permute")) continue; const int L = 12; std::map<std::vector<int>, uint64_t> count, cv; std::vector<int> ix(n, 0); uint64_t total = 0; for (;;) { W w; for (int x : ix) { w.push_back(0); w.push_back(x); } Script r(w), r2(w); std::vector<int> a(n), b(n); std::iota(a.begin(), a.end(), 0); b = a; permute(a.data(), (size_t)n, r); permute(b, r2); mc::step(2); ++count[a]; ++cv[b]; ++total; int i = 0; while (i < n and ++ix[i] >= L) ix[i++] = 0; if (i == n) break; }
        uint64_t f = 1; for (int i = 2; i <= n; ++i) f *= i; for (auto* c : {&count, &cv}) { MC_CHECK(c->size() == f, "every permutation is reached", n, " items: ", c->size()); for (auto& p : *c) { auto s = p.first; std::sort(s.begin(), s.end()); bool is = true; for (int i = 0; i < n; ++i) is = is and s[i] == i; MC_CHECK(is, "a permutation of its items", lat::show(p.first)); MC_CHECK(p.second * f == total, "every permutation is as likely", lat::show(p.first), " comes ", p.second, " times of ", total); } } }
    for (int n = 5; n <= 64; ++n) { if (not go("permute long")) continue; for (uint32_t f : {0u, 1u, 3u, 77u, 0xFFFFFFFFu, 0x80000000u}) { Script r(W(2 * n, f)); std::vector<int> b(n); std::iota(b.begin(), b.end(), 0); permute(b, r); mc::step(); std::sort(b.begin(), b.end()); bool is = true; for (int i = 0; i < n; ++i) is = is and b[i] == i; MC_CHECK(is, "a permutation of its items", n, " items"); } }
}
// generators: histories over two of them; whatever is done to one, each yields what a fresh generator of the same seed and history yields
template <typename G> void histories(const char* name) {
    const std::vector<uint64_t> seeds{0, 1, 0xFFFFFFFFFFFFFFFFull, 12345678901234567ull}; const int depth = mc::tier(5, 6); static std::string grp; grp = std::string("histories of ") + name; mc::bound(grp, depth);
    enum { A32, AB, AF, B32, BB, ASEED, COPY, NOPS }; std::vector<int> ops; for (int i = 0; i < NOPS; ++i) ops.push_back(i);
    auto draw = [](Random& g, int k) -> double { return k == 0 ? (double)g.rand32() : k == 1 ? (double)g.rand<bool>() : (double)g.rand<float>(); };
    lat::tuples_n<int>(depth, ops, [&](const std::vector<int>& h) {
        if (not mc::begin(grp.c_str(), IDX++)) return; mc::state(); mc::trace(); G a(seeds[1]), b(seeds[3]); struct M { uint64_t s; std::vector<int> k; } ma{seeds[1], {}}, mb{seeds[3], {}}; auto expect = [&](M& m, int k) { G f(m.s); for (int x : m.k) draw(f, x); m.k.push_back(k); return draw(f, k); };
        for (int o : h) { mc::step(); double v, e; switch (o) { case A32: case AB: case AF: v = draw(a, o - A32); e = expect(ma, o - A32); MC_CHECK(v == e, "stream", name, " ", lat::show(h), " first: ", v, " not ", e); break; case B32: case BB: v = draw(b, o - B32); e = expect(mb, o - B32); MC_CHECK(v == e, "stream", name, " ", lat::show(h), " second: ", v, " not ", e); break; case ASEED: a.rseed(seeds[2]); ma = M{seeds[2], {}}; break; default: b = a; mb = ma; } }
        for (int i = 0; i < 2; ++i) MC_CHECK(draw(a, i) == expect(ma, i) and draw(b, i) == expect(mb, i), "stream at the end", name, " ", lat::show(h)); mc::step(4);
    });
    for (uint64_t s = 0; s < (uint64_t)mc::tier(64, 512); ++s) { if (not mc::begin(grp.c_str(), IDX++)) continue; mc::state(); mc::trace(); G a(s), b(s), c(s + 1), d(77); d.rand32(); d.template rand<bool>(); d.rseed(s); int same = 0; for (int i = 0; i < 1500; ++i) { uint32_t x = a.rand32(); mc::step(); MC_CHECK(x == b.rand32(), "equal seeds", name, " seed ", s, " draw ", i); MC_CHECK(x == d.rand32(), "reseeding", name, " seed ", s, " draw ", i); same += x == c.rand32(); } MC_CHECK(same < 10, "seeds tell streams apart", name, " seed ", s, ": ", same); }
    if (mc::begin(grp.c_str(), IDX++)) { G a, b; int same = 0; for (int i = 0; i < 100; ++i) same += a.rand32() == b.rand32(); MC_CHECK(same < 10, "unseeded generators differ", name); }
}
static void recurrences() {
    for (uint64_t s : {0ull, 1ull, 42ull, 0xFFFFFFFFFFFFFFFFull, 0x123456789ABCDEFull}) {
        if (go("published recurrences")) { LCRand g(s); uint64_t x = s; for (int i = 0; i < 2000; ++i) { x = x * 6364136223846793005ull + 1442695040888963407ull; mc::step(); MC_CHECK(g.rand32() == (uint32_t)(x >> 32), "linear congruential", "seed ", s, " draw ", i); } }
        if (go("published recurrences")) { MTRand g(s); std::vector<uint32_t> v; for (int i = 0; i < 624 * 4; ++i) v.push_back(g.rand32()); for (size_t k = 624; k < v.size(); ++k) { uint32_t y = (v[k - 624] & 0x80000000u) | (v[k - 623] & 0x7FFFFFFFu), e = v[k - 227] ^ (y >> 1) ^ ((y & 1) ? 0x9908B0DFu : 0); mc::step(); MC_CHECK(v[k] == e, "Mersenne twister", "seed ", s, " draw ", k); } }
        if (go("published recurrences")) { XoshiroRand g(s), f; uint64_t e[4]; uint64_t x = s; for (auto& w : e) { x += 0x9E3779B97F4A7C15ull; uint64_t z = x; z = (z ^ (z >> 30)) * 0xBF58476D1CE4E5B9ull; z = (z ^ (z >> 27)) * 0x94D049BB133111EBull; w = z ^ (z >> 31); } const uint64_t* p = e; XoshiroRand h(p); f.rand<bool>(); f.seed(p); uint64_t t[4]; std::copy(e, e + 4, t); auto rot = [](uint64_t v, int k) { return (v << k) | (v >> (64 - k)); }; for (int i = 0; i < 2000; ++i) { uint64_t o = rot(t[0] + t[3], 23) + t[0], u = t[1] << 17; t[2] ^= t[0]; t[3] ^= t[1]; t[1] ^= t[2]; t[0] ^= t[3]; t[2] ^= u; t[3] = rot(t[3], 45); mc::step(3); MC_CHECK(g.rand64() == o and h.rand64() == o and f.rand64() == o, "xoshiro256++", "seed ", s, " draw ", i); } }
    }
}
// every one of the 2^32 outcomes of the bit source
struct Fast final : Random { uint32_t w = 0, n = 0; uint32_t rand32() override { return n++ == 0 ? w : 0; } void rseed(uint64_t) override {} };
static void full() {
    std::vector<uint32_t> hs{3, 641, 65537, 1000003, 7, 100, 12, 0x60000000u}; if (mc::thorough()) for (uint32_t h : {5u, 6u, 9u, 1000u, 0xFFFFu, 0x7FFFFFu, 10u, 255u, 257u, 31u, 33u, 0x10001u, 0x40000001u, 0x55555556u, 0x7FFFFFFFu, 0x80000001u}) hs.push_back(h); mc::bound("bounds enumerated over all 2^32 outcomes", hs.size());
    for (uint32_t h : hs) { if (not go("all outcomes")) continue; std::vector<uint32_t> c(h <= 0x7FFFFFu ? h : 0); std::vector<uint8_t> d(h <= 0x7FFFFFu ? 0 : h); Fast r; uint64_t acc = 0; bool ok = true; uint32_t w = 0; do { r.w = w; r.n = 0; uint32_t v = r.rand<unsigned int>(h); if (v >= h) { ok = false; MC_CHECK(false, "range", "bound ", h, " bits ", w, ": ", v); break; } if (r.n == 1) { ++acc; if (c.size()) ++c[v]; else ++d[v]; } if ((w & 0xFFFFFFF) == 0) mc::tick(); } while (++w); mc::step(1ull << 32);
        if (ok) { uint64_t each = acc / h; bool even = each * h == acc and each > 0; for (auto x : c) even = even and x == each; for (auto x : d) even = even and x == each; MC_CHECK(even, "uniform over all outcomes", "bound ", h, ": ", acc, " outcomes accepted"); } }
}
void mc_run() {
    IDX = 0;
    if (mc::part("ints")) { Ints<int>::free("int"); Ints<unsigned>::free("unsigned"); Ints<long>::free("long"); Ints<unsigned long>::free("unsigned long"); Ints<long long>::free("long long"); Ints<unsigned long long>::free("unsigned long long"); Ints<int>::below("int"); Ints<unsigned>::below("unsigned"); Ints<long>::below("long"); Ints<unsigned long>::below("unsigned long"); Ints<long long>::below("long long"); Ints<unsigned long long>::below("unsigned long long"); Ints<int>::between("int"); Ints<long long>::between("long long"); bools(); permutations(); }
    if (mc::part("reals")) { Reals<float>::unit("float"); Reals<double>::unit("double"); Reals<float>::ranges("float"); Reals<double>::ranges("double"); }
    if (mc::part("gens")) { histories<LCRand>("LCRand"); histories<XoshiroRand>("XoshiroRand"); histories<MTRand>("MTRand"); recurrences(); }
    if (mc::part("full")) full();
}
