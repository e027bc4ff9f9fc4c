// Convex hulls of a few points: exact-as-possible brute force over vertex subsets.
#pragma once
#include "truth.h"
namespace hull {
using tr::R; using tr::A; using tr::dot; using tr::lin; using tr::len;
/// solve the k x k system G x = b by Gaussian elimination; false when singular
inline bool solve(std::vector<std::vector<R>> G, std::vector<R> b, std::vector<R>& x) {
    size_t k = b.size();
    for (size_t c = 0; c < k; ++c) { size_t p = c; for (size_t r = c; r < k; ++r) if (std::abs(G[r][c]) > std::abs(G[p][c])) p = r; if (std::abs(G[p][c]) < 1e-9L) return false; std::swap(G[c], G[p]); std::swap(b[c], b[p]); for (size_t r = c + 1; r < k; ++r) { R f = G[r][c] / G[c][c]; if (f == 0) continue; for (size_t j = c; j < k; ++j) G[r][j] -= f * G[c][j]; b[r] -= f * b[c]; } }
    x.assign(k, 0); for (size_t c = k; c-- > 0;) { R s = b[c]; for (size_t j = c + 1; j < k; ++j) s -= G[c][j] * x[j]; x[c] = s / G[c][c]; }
    return true;
}
/// coordinates of the orthogonal projection of p onto the affine hull of v (weights on v[1..]); false when v is affinely dependent
template <int N> bool coords(const std::vector<A<N>>& v, const A<N>& p, std::vector<R>& w) {
    size_t k = v.size() - 1; std::vector<A<N>> e(k); for (size_t i = 0; i < k; ++i) e[i] = lin(v[i + 1], -1, v[0]);
    A<N> q = lin(p, -1, v[0]); std::vector<std::vector<R>> G(k, std::vector<R>(k)); std::vector<R> b(k);
    for (size_t i = 0; i < k; ++i) { b[i] = dot(e[i], q); for (size_t j = 0; j < k; ++j) G[i][j] = dot(e[i], e[j]); }
    if (k > (size_t)N) return false; if (k == 0) { w.clear(); return true; }
    return solve(G, b, w);
}
template <int N> A<N> at(const std::vector<A<N>>& v, const std::vector<R>& w) { A<N> o = v[0]; for (size_t i = 0; i < w.size(); ++i) o = lin(o, w[i], lin(v[i + 1], -1, v[0])); return o; }
/// product of Gram pivots: squared k-dimensional volume of the parallelepiped
template <int N> R gram(const std::vector<A<N>>& v) {
    size_t k = v.size() - 1; std::vector<std::vector<R>> G(k, std::vector<R>(k)); for (size_t i = 0; i < k; ++i) for (size_t j = 0; j < k; ++j) G[i][j] = dot(lin(v[i + 1], -1, v[0]), lin(v[j + 1], -1, v[0]));
    R d = 1; for (size_t c = 0; c < k; ++c) { size_t p = c; for (size_t r = c; r < k; ++r) if (std::abs(G[r][c]) > std::abs(G[p][c])) p = r; if (std::abs(G[p][c]) < 1e-12L) return 0; if (p != c) { std::swap(G[p], G[c]); d = -d; } d *= G[c][c]; for (size_t r = c + 1; r < k; ++r) { R f = G[r][c] / G[c][c]; for (size_t j = c; j < k; ++j) G[r][j] -= f * G[c][j]; } }
    return d;
}
/// distance from p to the convex hull of v
template <int N> R dist(const std::vector<A<N>>& v, const A<N>& p) {
    R best = INFINITY; std::vector<R> w; std::vector<A<N>> sub;
    for (size_t m = 1; m < (size_t(1) << v.size()); ++m) {
        sub.clear(); for (size_t i = 0; i < v.size(); ++i) if (m >> i & 1) sub.push_back(v[i]);
        if (sub.size() > (size_t)N + 1 or not coords<N>(sub, p, w)) continue;
        R s = 1; bool in = true; for (R x : w) { s -= x; in = in and x >= -1e-14L; } if (not in or s < -1e-14L) continue;
        best = std::min(best, len(lin(p, -1, at<N>(sub, w))));
    }
    return best;
}
/// depth of p inside a full, non-degenerate simplex: smallest distance to a facet's plane (negative outside)
template <int N> R depth(const std::vector<A<N>>& v, const A<N>& p) {
    std::vector<R> w; if (not coords<N>(v, p, w)) return -INFINITY;
    R s = 1, best = INFINITY; for (R x : w) s -= x;
    for (size_t i = 0; i < v.size(); ++i) { R b = i ? w[i - 1] : s; std::vector<A<N>> f; for (size_t j = 0; j < v.size(); ++j) if (j != i) f.push_back(v[j]); std::vector<R> u; coords<N>(f, v[i], u); R h = len(lin(v[i], -1, at<N>(f, u))); best = std::min(best, b * h); }
    return best;
}
} // namespace hull
