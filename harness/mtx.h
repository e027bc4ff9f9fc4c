// Matrix builders shared by the matrix harnesses: every kind, layout and storage policy.
#pragma once
#include "lat.h"
#include <geomc/linalg/Matrix.h>
#include <geomc/linalg/Vec.h>
namespace mx {
using namespace geom;

template <typename T> struct Dense {
    size_t r = 0, c = 0; std::vector<T> v;
    Dense() {}
    Dense(size_t r, size_t c) : r(r), c(c), v(r * c, T(0)) {}
    T& operator()(size_t i, size_t j) { return v[i * c + j]; }
    const T& operator()(size_t i, size_t j) const { return v[i * c + j]; }
    bool operator==(const Dense& o) const { return r == o.r and c == o.c and v == o.v; }
};
template <typename T> Dense<T> mul(const Dense<T>& a, const Dense<T>& b) {
    Dense<T> o(a.r, b.c);
    for (size_t i = 0; i < a.r; ++i) for (size_t j = 0; j < b.c; ++j) { T s(0); for (size_t k = 0; k < a.c; ++k) s = s + a(i, k) * b(k, j); o(i, j) = s; }
    return o;
}
template <typename T> Dense<T> tr(const Dense<T>& a) { Dense<T> o(a.c, a.r); for (size_t i = 0; i < a.r; ++i) for (size_t j = 0; j < a.c; ++j) o(j, i) = a(i, j); return o; }
template <typename T> std::string show(const Dense<T>& a) {
    std::string s = "[";
    for (size_t i = 0; i < a.r; ++i) { if (i) s += "; "; for (size_t j = 0; j < a.c; ++j) { if (j) s += " "; s += mc::str(a(i, j)); } }
    return s + "]";
}
/// read any geomc matrix through element access
template <typename T, typename M> Dense<T> snap(const M& m) {
    Dense<T> d(m.rows(), m.cols());
    for (index_t i = 0; i < m.rows(); ++i) for (index_t j = 0; j < m.cols(); ++j) d(i, j) = T(m(i, j));
    return d;
}
/// distinct values so that any misplaced element shows
template <typename T> Dense<T> distinct(size_t r, size_t c, int salt = 0) {
    Dense<T> d(r, c); int k = 1 + salt;
    for (auto& x : d.v) { x = T(k); k = k + 1 + (k % 3); }
    for (size_t i = 1; i < d.v.size(); i += 2) d.v[i] = -d.v[i];
    return d;
}
template <typename M, typename T> void fill(M& m, const Dense<T>& d) {
    for (size_t i = 0; i < d.r; ++i) for (size_t j = 0; j < d.c; ++j) m(i, j) = d(i, j);
}
} // namespace mx
