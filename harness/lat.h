// Small helpers for exhaustive lattices.
#pragma once
#include "mc.h"
#include <array>
#include <numeric>
namespace lat {

/// call f(std::array<T,N>) for every tuple over vals^N (odometer, first fastest)
template <size_t N, typename T, typename F>
void tuples(const std::vector<T>& vals, F f) {
    std::array<size_t, N> ix{};
    std::array<T, N> a{};
    if (vals.empty()) return;
    for (;;) {
        for (size_t i = 0; i < N; ++i) a[i] = vals[ix[i]];
        f((const std::array<T, N>&)a);
        size_t i = 0;
        for (; i < N; ++i) { if (++ix[i] < vals.size()) break; ix[i] = 0; }
        if (i == N) return;
    }
}
/// runtime-length version
template <typename T, typename F>
void tuples_n(size_t n, const std::vector<T>& vals, F f) {
    std::vector<size_t> ix(n, 0);
    std::vector<T> a(n);
    for (;;) {
        for (size_t i = 0; i < n; ++i) a[i] = vals[ix[i]];
        f((const std::vector<T>&)a);
        size_t i = 0;
        for (; i < n; ++i) { if (++ix[i] < vals.size()) break; ix[i] = 0; }
        if (i == n) return;
    }
}
template <typename A> std::string show(const A& a) {
    std::string s = "(";
    for (size_t i = 0; i < a.size(); ++i) { if (i) s += ","; s += mc::str(a[i]); }
    return s + ")";
}
} // namespace lat
