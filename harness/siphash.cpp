// C38: the byte hash against an independent implementation of SipHash-2-4 (Aumasson & Bernstein), itself pinned to published vectors.
#include "mc.h"
#include "lat.h"
#include <string>
#include <bit>
#include <string_view>
#include <geomc/Hash.h>
typedef unsigned __int128 u128;
static uint64_t IDX;
namespace ref {
static uint64_t le(const uint8_t* p, size_t n) { uint64_t v = 0; for (size_t i = 0; i < n; ++i) v |= (uint64_t)p[i] << (8 * i); return v; }
static uint64_t rl(uint64_t x, int b) { return (x << b) | (x >> (64 - b)); }
struct S { uint64_t v[4]; void round(int n) { while (n--) { v[0] += v[1]; v[2] += v[3]; v[1] = rl(v[1], 13) ^ v[0]; v[3] = rl(v[3], 16) ^ v[2]; v[0] = rl(v[0], 32); v[2] += v[1]; v[0] += v[3]; v[1] = rl(v[1], 17) ^ v[2]; v[3] = rl(v[3], 21) ^ v[0]; v[2] = rl(v[2], 32); } } };
static void sip(const uint8_t* in, size_t n, const uint8_t* key, uint8_t* out, size_t ol) {
    uint64_t k0 = le(key, 8), k1 = le(key + 8, 8); S s{{k0 ^ 0x736f6d6570736575ull, k1 ^ 0x646f72616e646f6dull, k0 ^ 0x6c7967656e657261ull, k1 ^ 0x7465646279746573ull}}; if (ol == 16) s.v[1] ^= 0xee;
    for (size_t i = 0; i <= n / 8; ++i) { uint64_t m = i < n / 8 ? le(in + 8 * i, 8) : le(in + 8 * i, n % 8) | (uint64_t)(n & 255) << 56; s.v[3] ^= m; s.round(2); s.v[0] ^= m; }
    s.v[2] ^= ol == 16 ? 0xee : 0xff; for (size_t j = 0; j < ol / 8; ++j) { if (j) s.v[1] ^= 0xdd; s.round(4); uint64_t b = s.v[0] ^ s.v[1] ^ s.v[2] ^ s.v[3]; for (int i = 0; i < 8; ++i) out[8 * j + i] = (uint8_t)(b >> (8 * i)); }
}
}
static std::string hex(const uint8_t* p, size_t n) { std::string s; char b[3]; for (size_t i = 0; i < n; ++i) { std::snprintf(b, 3, "%02x", p[i]); s += b; } return s; }
static void one(const uint8_t* in, size_t n, const uint8_t* key, const std::string& what) {
    for (size_t ol : {(size_t)8, (size_t)16}) { uint8_t a[24], b[24]; std::memset(a, 0xa5, 24); std::memset(b, 0xa5, 24); ref::sip(in, n, key, a, ol); geom::detail::siphash(in, n, key, b, ol); mc::step(); if (std::memcmp(a, b, 24)) mc::fail(ol == 8 ? "64 bit hash" : "128 bit hash", mc::str(what, " hashes to ", hex(b, ol), " (", hex(b + ol, 24 - ol), " after it) expected ", hex(a, ol))); }
    u128 nonce = (u128)ref::le(key + 8, 8) << 64 | ref::le(key, 8); uint8_t o[16]; ref::sip(in, n, key, o, 16); u128 e = (u128)ref::le(o, 8) << 64 | ref::le(o + 8, 8), g = geom::hash_bytes<u128>(nonce, in, n); mc::step(); MC_CHECK(e == g, "hash_bytes 128", what);
}
void mc_run() {
    IDX = 0; uint8_t key[16]; for (int i = 0; i < 16; ++i) key[i] = i;
    if (mc::begin("published vectors", IDX++)) {
        auto kat = [&](size_t n, size_t ol, const char* want) { uint8_t in[64], a[16], b[16]; for (int i = 0; i < 64; ++i) in[i] = i; ref::sip(in, n, key, a, ol); geom::detail::siphash(in, n, key, b, ol); mc::step(); mc::trace(); if (hex(a, ol) != want) { std::fprintf(stderr, "reference implementation is wrong: %s\n", hex(a, ol).c_str()); std::abort(); } MC_CHECK(hex(b, ol) == want, "published vector", n, " bytes: ", hex(b, ol), " expected ", want); };
        kat(0, 8, "310e0edd47db6f72"); kat(1, 8, "fd67dc93c539f874"); kat(2, 8, "5a4fa9d909806c0d"); kat(15, 8, "e545be4961ca29a1"); kat(0, 16, "a3817f04ba25a8e66df67214c7550293");
    }
    std::vector<std::array<uint8_t, 16>> keys(4); for (int i = 0; i < 16; ++i) { keys[0][i] = i; keys[1][i] = 0; keys[2][i] = 0xff; keys[3][i] = (uint8_t)(i * 73 + 129); }
    const size_t maxlen = mc::tier(300, 1100); mc::bound("lengths", mc::str("0-", maxlen)); mc::bound("alignments", 8); mc::bound("keys", keys.size());
    for (size_t n = 0; n <= maxlen; ++n) for (int al = 0; al < 8; ++al) {
        if (not mc::begin("lengths and alignments", IDX++)) continue; mc::state();
        for (int pat = 0; pat < 5; ++pat) for (auto& k : keys) {
            std::vector<uint8_t> buf(n + 24); uint8_t* p = (uint8_t*)(((uintptr_t)buf.data() + 7) / 8 * 8) + al; for (size_t i = 0; i < n; ++i) p[i] = pat == 0 ? 0 : pat == 1 ? 255 : pat == 2 ? (uint8_t)i : pat == 3 ? (uint8_t)(i * i * 7 + 200) : (uint8_t)(i == n / 2);
            std::vector<uint8_t> exact(p, p + n); mc::trace(); one(exact.data(), n, k.data(), mc::str(n, " bytes of pattern ", pat)); one(p, n, k.data(), mc::str(n, " bytes of pattern ", pat, " at alignment ", al));
            size_t h1 = geom::hash_bytes<size_t>(5, p, n), h2 = geom::hash_bytes<size_t>(5, exact.data(), n), h3 = geom::hash_bytes<size_t>(6, p, n); mc::step(3); MC_CHECK(h1 == h2, "hash_bytes 64", "depends on alignment"); MC_CHECK(h1 != h3, "hash_bytes 64", "ignores the nonce");
        }
    }
    // every short string, and every single-byte change of longer ones
    const int full = mc::tier(2, 3); mc::bound("exhaustive strings up to length", full);
    for (int len = 1; len <= full; ++len) for (int b0 = 0; b0 < 256; ++b0) { if (not mc::begin("short strings", IDX++)) continue; uint32_t n = 1u << (8 * (len - 1)); for (uint32_t r = 0; r < n; ++r) { uint8_t in[3] = {(uint8_t)b0, (uint8_t)r, (uint8_t)(r >> 8)}; mc::trace(); mc::state(); uint8_t a[8], b[8]; ref::sip(in, len, keys[3].data(), a, 8); geom::detail::siphash(in, len, keys[3].data(), b, 8); mc::step(); if (std::memcmp(a, b, 8)) mc::fail("short string", hex(in, len)); } }
    for (size_t n = 3; n <= 40; ++n) for (size_t at = 0; at < n; ++at) { if (not mc::begin("byte changes", IDX++)) continue; for (int v = 0; v < 256; ++v) { std::vector<uint8_t> in(n); for (size_t i = 0; i < n; ++i) in[i] = i * 3; in[at] = v; mc::trace(); mc::state(); one(in.data(), n, keys[0].data(), hex(in.data(), n)); } }
    for (int at = 0; at < 16; ++at) { if (not mc::begin("key changes", IDX++)) continue; for (int v = 0; v < 256; ++v) { auto k = keys[3]; k[at] = v; for (size_t n : {0, 1, 7, 8, 9, 16, 23}) { std::vector<uint8_t> in(n); for (size_t i = 0; i < n; ++i) in[i] = 200 + i; mc::trace(); one(in.data(), n, k.data(), mc::str("key ", hex(k.data(), 16), ", ", n, " bytes")); } } }
}
