// Matrix families for the solver harnesses: exhaustive small-entry matrices and structured families, with exact oracles.
#pragma once
#include "rat.h" // first: geomc templates must see std::abs(Rat)
#include "mtx.h"
#include <numeric>
#include <functional>
namespace fam {
using mx::Dense;
typedef Dense<long> DL;
/// exact determinant by cofactor expansion (independent of elimination)
inline long det(const DL& a) {
    if (a.r == 0) return 1;
    if (a.r == 1) return a(0, 0);
    long s = 0;
    for (size_t j = 0; j < a.c; ++j) {
        if (a(0, j) == 0) continue;
        DL m(a.r - 1, a.c - 1);
        for (size_t i = 1; i < a.r; ++i) for (size_t k = 0, q = 0; k < a.c; ++k) if (k != j) m(i - 1, q++) = a(i, k);
        s += ((j & 1) ? -1 : 1) * a(0, j) * det(m);
    }
    return s;
}
/// rank by exact elimination
inline size_t rank(const DL& a) {
    Dense<Rat> m(a.r, a.c); for (size_t i = 0; i < a.v.size(); ++i) m.v[i] = Rat(a.v[i]);
    size_t r = 0;
    for (size_t c = 0; c < a.c and r < a.r; ++c) {
        size_t p = r; while (p < a.r and m(p, c) == Rat(0)) ++p;
        if (p == a.r) continue;
        for (size_t k = 0; k < a.c; ++k) std::swap(m(p, k), m(r, k));
        for (size_t i = r + 1; i < a.r; ++i) { Rat f = m(i, c) / m(r, c); for (size_t k = c; k < a.c; ++k) m(i, k) = m(i, k) - f * m(r, k); }
        ++r;
    }
    return r;
}
/// every r x c matrix over the alphabet; f(matrix)
template <typename F> void all(size_t r, size_t c, const std::vector<long>& alpha, F f) {
    size_t n = r * c; std::vector<size_t> d(n, 0); DL m(r, c);
    while (true) {
        for (size_t i = 0; i < n; ++i) m.v[i] = alpha[d[i]];
        f(m);
        size_t k = 0; while (k < n and ++d[k] == alpha.size()) d[k++] = 0;
        if (k == n) break;
    }
}
/// P * L * U for every permutation and `bits` patterns of the strict triangles, plus for each a rank-deficient version
/// with one row replaced by a multiple of another (or zeroed)
template <typename F> void structured(size_t n, size_t patterns, bool deficient, F f) {
    std::vector<size_t> p(n); std::iota(p.begin(), p.end(), 0);
    do {
        for (size_t s = 0; s < patterns; ++s) {
            DL L(n, n), U(n, n), m(n, n);
            uint64_t h = s * 0x9e3779b97f4a7c15ull + 12345 * n;
            auto nx = [&] { h ^= h >> 29; h *= 0xbf58476d1ce4e5b9ull; h ^= h >> 32; return long(h % 3) - 1; };
            for (size_t i = 0; i < n; ++i) for (size_t j = 0; j < n; ++j) {
                if (i == j) { L(i, i) = 1; U(i, i) = s == 0 ? 1 : (nx() >= 0 ? 1 : -2); }
                else if (i > j) L(i, j) = s == 0 ? 0 : nx(); else U(i, j) = s == 0 ? 0 : nx();
            }
            auto lu = mx::mul(L, U);
            for (size_t i = 0; i < n; ++i) for (size_t j = 0; j < n; ++j) m(i, j) = lu(p[i], j);
            f(m);
            if (deficient) {
                size_t a = s % n, b = (s / 2 + 1 + a) % n; if (a == b) b = (a + 1) % n;
                long k = long(s % 4) - 1;
                DL q = m; for (size_t j = 0; j < n; ++j) q(a, j) = k * m(b, j); f(q);
                q = m; for (size_t i = 0; i < n; ++i) q(i, a) = k * m(i, b); f(q);
            }
        }
    } while (std::next_permutation(p.begin(), p.end()));
}
template <typename T> Dense<T> as(const DL& a) { Dense<T> o(a.r, a.c); for (size_t i = 0; i < a.v.size(); ++i) o.v[i] = T(a.v[i]); return o; }
inline bool near(double a, double b, double tol) { return std::abs(a - b) <= tol * std::max(1., std::abs(b)); }
inline bool near(const Rat& a, const Rat& b, double) { return a == b; }
template <typename T> bool close_to(const Dense<T>& a, const Dense<T>& b, double tol) {
    if (a.r != b.r or a.c != b.c) return false;
    for (size_t i = 0; i < a.v.size(); ++i) if (not near(a.v[i], b.v[i], tol)) return false;
    return true;
}
/// scalar type used by geomc in this build: did the exact type leave its range? (such cases carry no verdict)
inline bool reset() { bool o = Rat::overflow(); Rat::overflow() = false; Rat::divzero() = false; return o; }
} // namespace fam
