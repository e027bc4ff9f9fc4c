// Every matrix kind behind one interface: Obj<Kind, T, M, N> owns a geomc matrix of logical shape M x N plus the
// dense matrix it must stand for. content(v) selects one of variants() distinguishable contents.
#pragma once
#include "mtx.h"
namespace kn {
using namespace geom;
using mx::Dense;

inline std::vector<long> nth_perm(size_t n, size_t k) {
    std::vector<long> p(n); std::iota(p.begin(), p.end(), 0);
    for (size_t i = 0; i < k; ++i) std::next_permutation(p.begin(), p.end());
    return p;
}
constexpr size_t fact(size_t n) { return n < 2 ? 1 : n * fact(n - 1); }

enum Kind { SR, SC, DR, DC, HR, HC, WC, WD, SH, GS, GD, PS, PD, NKIND };
inline const char* kname(int k) {
    static const char* n[] = {"static-row", "static-col", "dyn-row", "dyn-col", "Mx0-row", "0xN-col", "wrap-col", "wrap-dyn", "shared", "diag", "diag-dyn", "perm", "perm-dyn"};
    return n[k];
}
constexpr bool is_diag(int k) { return k == GS or k == GD; }
constexpr bool is_perm(int k) { return k == PS or k == PD; }
constexpr bool is_flat(int k) { return not is_diag(k) and not is_perm(k); }
constexpr bool is_wrap(int k) { return k == WC or k == WD; }
constexpr bool is_col(int k) { return k == SC or k == DC or k == HC or k == WC; }
constexpr bool is_static(int k) { return k == SR or k == SC or k == WC or k == GS or k == PS; }

template <int K, typename T, index_t M, index_t N> struct TypeOf;
template <typename T, index_t M, index_t N> struct TypeOf<SR, T, M, N> { typedef SimpleMatrix<T, M, N> type; };
template <typename T, index_t M, index_t N> struct TypeOf<SC, T, M, N> { typedef SimpleMatrix<T, M, N, COL_MAJOR> type; };
template <typename T, index_t M, index_t N> struct TypeOf<DR, T, M, N> { typedef SimpleMatrix<T, 0, 0> type; };
template <typename T, index_t M, index_t N> struct TypeOf<DC, T, M, N> { typedef SimpleMatrix<T, 0, 0, COL_MAJOR> type; };
template <typename T, index_t M, index_t N> struct TypeOf<HR, T, M, N> { typedef SimpleMatrix<T, M, 0> type; };
template <typename T, index_t M, index_t N> struct TypeOf<HC, T, M, N> { typedef SimpleMatrix<T, 0, N, COL_MAJOR> type; };
template <typename T, index_t M, index_t N> struct TypeOf<WC, T, M, N> { typedef WrapperMatrix<T, M, N, COL_MAJOR> type; };
template <typename T, index_t M, index_t N> struct TypeOf<WD, T, M, N> { typedef WrapperMatrix<T, 0, 0> type; };
template <typename T, index_t M, index_t N> struct TypeOf<SH, T, M, N> { typedef SimpleMatrix<T, 0, 0, ROW_MAJOR, STORAGE_SHARED> type; };
template <typename T, index_t M, index_t N> struct TypeOf<GS, T, M, N> { typedef DiagMatrix<T, M, N> type; };
template <typename T, index_t M, index_t N> struct TypeOf<GD, T, M, N> { typedef DiagMatrix<T, 0, 0> type; };
template <typename T, index_t M, index_t N> struct TypeOf<PS, T, M, N> { typedef PermutationMatrix<N> type; };
template <typename T, index_t M, index_t N> struct TypeOf<PD, T, M, N> { typedef PermutationMatrix<0> type; };

/// every element of a matrix of `T` is a multiple of this
template <typename T> inline T unit = T(1);
template <int K, typename T, index_t M, index_t N> struct Obj {
    typedef typename TypeOf<K, T, M, N>::type type;
    T buf[M * N > 0 ? M * N : 1];
    type m;
    Dense<T> d;
    static type make(T* b) {
        if constexpr (K == SR or K == SC) return type();
        else if constexpr (K == DR or K == DC or K == SH or K == GD) return type(M, N);
        else if constexpr (K == HR or K == HC) return type(M, N);
        else if constexpr (K == WC) return type(b);
        else if constexpr (K == WD) return type(b, M, N);
        else if constexpr (K == GS) return type();
        else if constexpr (K == PS) return type();
        else return type(N);
    }
    Obj(size_t v = 0) : m(make(buf)), d(M, N) { content(v); }
    Obj(const Obj&) = delete;
    static constexpr bool valid() { return not is_perm(K) or M == N; }
    static constexpr size_t variants() { return is_perm(K) ? fact(N) : 2; }
    void content(size_t v) {
        d = Dense<T>(M, N);
        if constexpr (is_perm(K)) {
            auto p = nth_perm(N, v);
            m.setRowSources(p.data());
            for (size_t i = 0; i < size_t(N); ++i) d(i, p[i]) = T(1);
        } else if constexpr (is_diag(K)) {
            for (index_t i = 0; i < std::min(M, N); ++i) { T x = T(long((i & 1) ? -(i * 2 + 3 + long(v)) : i * 2 + 2 + long(v) * 3)) * unit<T>; m.diagonal(i) = x; d(i, i) = x; }
        } else {
            d = mx::distinct<T>(M, N, int(v) * 4 + K);
            for (auto& x : d.v) x = x * unit<T>;
            for (index_t i = 0; i < M; ++i) for (index_t j = 0; j < N; ++j) m.set(i, j, d(i, j));
        }
    }
};
/// does `m` stand for exactly `d` (through element access)?
template <typename T, typename Mx> bool same(const Mx& m, const Dense<T>& d) {
    if (size_t(m.rows()) != d.r or size_t(m.cols()) != d.c) return false;
    for (size_t i = 0; i < d.r; ++i) for (size_t j = 0; j < d.c; ++j) if (T(m(i, j)) != d(i, j)) return false;
    return true;
}
template <typename F, int... I> void each_kind(F f, std::integer_sequence<int, I...>) { (f(std::integral_constant<int, I>()), ...); }
template <typename F> void each_kind(F f) { each_kind(f, std::make_integer_sequence<int, NKIND>()); }
template <index_t M, index_t N> struct Shape { static constexpr index_t m = M, n = N; };
template <typename F> void each_shape(F f) {
    f(Shape<1, 1>()); f(Shape<1, 2>()); f(Shape<2, 1>()); f(Shape<2, 2>()); f(Shape<1, 3>()); f(Shape<3, 1>());
    f(Shape<2, 3>()); f(Shape<3, 2>()); f(Shape<3, 3>()); f(Shape<4, 4>()); f(Shape<2, 4>()); f(Shape<4, 3>());
}
} // namespace kn
