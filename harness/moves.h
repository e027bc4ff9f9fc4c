// Affine maps of the harnesses: the library's transform next to the plain matrix it stands for.
// (include after T, R and A are declared)
#pragma once
#ifndef XF_SCALE
#define XF_SCALE T(1) // unit of length of the translations
#endif
template <int N> static Vec<T, N> v_(const A<N>& a) { Vec<T, N> v; for (int i = 0; i < N; ++i) v[i] = (T)a[i]; return v; }
template <int N> struct AX { std::array<A<N>, N> M; A<N> t; std::string name; AffineTransform<T, N> xf; };
template <int N> static std::vector<AX<N>> transforms() {
    std::vector<AX<N>> o;
    auto add = [&](const char* nm, std::array<A<N>, N> M, A<N> t) { SimpleMatrix<T, N, N> m; for (int i = 0; i < N; ++i) for (int j = 0; j < N; ++j) m(i, j) = (T)M[i][j]; o.push_back({M, t, nm, translation(v_<N>(t) * XF_SCALE) * transformation(m)}); };
    std::array<A<N>, N> I{}; for (int i = 0; i < N; ++i) I[i][i] = 1; A<N> z{}, t; for (int i = 0; i < N; ++i) t[i] = i % 2 ? -0.5L : 1;
    add("identity", I, z); add("shift", I, t);
    auto q = I; q[0][0] = q[1][1] = 0; q[0][1] = -1; q[1][0] = 1; add("quarter turn", q, z); add("quarter turn + shift", q, t);
    auto r = I; r[0][0] = r[1][1] = 0.6L; r[0][1] = -0.8L; r[1][0] = 0.8L; add("rotation", r, t);
    auto s = I; s[0][0] = 2; s[N - 1][N - 1] = 0.5L; add("scale", s, t);
    auto f = I; f[0][0] = -1; add("mirror", f, z);
    auto h = I; h[0][1] = 1; h[N - 1][0] = -0.5L; add("shear", h, t);
    return o;
}

template <int N> static A<N> image(const AX<N>& x, const A<N>& p) { A<N> o = x.t; for (int i = 0; i < N; ++i) for (int j = 0; j < N; ++j) o[i] += x.M[i][j] * p[j]; return o; }
