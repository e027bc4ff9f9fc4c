// Reference solids: plain long double formulas, independent of geomc.
#pragma once
#include "mc.h"
#include "lat.h"
namespace tr {
typedef long double R;
template <int N> using A = std::array<R, N>;
template <size_t N> R dot(const std::array<R, N>& a, const std::array<R, N>& b) { R s = 0; for (size_t i = 0; i < N; ++i) s += a[i] * b[i]; return s; }
template <size_t N> std::array<R, N> lin(const std::array<R, N>& a, R t, const std::array<R, N>& b) { std::array<R, N> o; for (size_t i = 0; i < N; ++i) o[i] = a[i] + t * b[i]; return o; }
template <size_t N> R len(const std::array<R, N>& a) { return std::sqrt(dot(a, a)); }
template <size_t N> std::array<R, N - 1> drop(const std::array<R, N>& a) { std::array<R, N - 1> o; for (size_t i = 0; i + 1 < N; ++i) o[i] = a[i]; return o; }

/// g(p): negative inside, 0 on the surface, positive outside; convex. When `metric`, the exact signed distance.
/// h(d): max over the solid of x.d
template <int N> struct Solid {
    std::function<R(const A<N>&)> g, h;
    std::function<R(const A<N>&)> rec;     ///< max over all supporting half spaces of n.d: growth of g along d at infinity
    bool metric = true;
    std::function<R(const A<N>&)> core;    ///< distance to the set of points without a unique direction to the surface (axis, centre)
};
template <int N> Solid<N> sphere(A<N> c, R r) { return {[=](const A<N>& p) { return len(lin(p, -1, c)) - r; }, [=](const A<N>& d) { return dot(c, d) + r * len(d); }, [](const A<N>& d) { return len(d); }, true, [=](const A<N>& p) { return len(lin(p, -1, c)); }}; }
template <int N> Solid<N> box(A<N> lo, A<N> hi) {
    return {[=](const A<N>& p) { R in = -INFINITY, out = 0; for (int i = 0; i < N; ++i) { R q = std::max(lo[i] - p[i], p[i] - hi[i]); in = std::max(in, q); q = std::max<R>(q, 0); out += q * q; } return in <= 0 ? in : std::sqrt(out); },
            [=](const A<N>& d) { R s = 0; for (int i = 0; i < N; ++i) s += std::max(d[i] * lo[i], d[i] * hi[i]); return s; }, [](const A<N>& d) { return len(d); }, true};
}
template <int N> Solid<N> capsule(A<N> a, A<N> b, R r) {
    return {[=](const A<N>& p) { A<N> u = lin(b, -1, a), v = lin(p, -1, a); R uu = dot(u, u), t = uu > 0 ? std::clamp<R>(dot(u, v) / uu, 0, 1) : 0; return len(lin(v, -t, u)) - r; },
            [=](const A<N>& d) { return std::max(dot(a, d), dot(b, d)) + r * len(d); }, [](const A<N>& d) { return len(d); }, true, [=](const A<N>& p) { A<N> u = lin(b, -1, a), v = lin(p, -1, a); R uu = dot(u, u), t = uu > 0 ? std::clamp<R>(dot(u, v) / uu, 0, 1) : 0; return len(lin(v, -t, u)); }};
}
inline R meet(R x, R y) { return x <= 0 and y <= 0 ? std::max(x, y) : std::sqrt(std::max<R>(x, 0) * std::max<R>(x, 0) + std::max<R>(y, 0) * std::max<R>(y, 0)); }
template <int N> Solid<N> cylinder(A<N> a, A<N> b, R r) {
    A<N> u = lin(b, -1, a); R L = len(u); for (auto& x : u) x /= L;
    return {[=](const A<N>& p) { A<N> v = lin(p, -1, a); R t = dot(u, v); A<N> w = lin(v, -t, u); return meet(len(w) - r, std::abs(t - L / 2) - L / 2); },
            [=](const A<N>& d) { R t = dot(u, d); return std::max(dot(a, d), dot(b, d)) + r * len(lin(d, -t, u)); }, [](const A<N>& d) { return len(d); }, true, [=](const A<N>& p) { A<N> v = lin(p, -1, a); R t = dot(u, v); return len(lin(v, -t, u)); }};
}
template <int N> Solid<N> dilated(Solid<N> s, R e) { return {[=](const A<N>& p) { return s.g(p) - e; }, [=](const A<N>& d) { return s.h(d) + e * len(d); }, s.rec, s.metric, [=](const A<N>& p) { return std::min(std::abs(s.g(p)), s.core ? s.core(p) : INFINITY); }}; }
template <int M> Solid<M + 1> extruded(Solid<M> s, R lo, R hi) {
    return {[=](const A<M + 1>& p) { return meet(s.g(drop(p)), std::max(lo - p[M], p[M] - hi)); }, [=](const A<M + 1>& d) { return s.h(drop(d)) + std::max(d[M] * lo, d[M] * hi); }, [](const A<M + 1>& d) { return len(d); }, s.metric, s.core ? std::function<R(const A<M + 1>&)>([=](const A<M + 1>& p) { return s.core(drop(p)); }) : nullptr};
}
/// cone over s placed at height 1, clipped to [lo,hi] (which has one sign)
template <int M> Solid<M + 1> frustum(Solid<M> s, R lo, R hi) {
    return {[=](const A<M + 1>& p) {
                R z = p[M], slab = std::max(lo - z, z - hi); if (slab > 0) return slab;
                A<M> q = drop(p); R m = std::abs(z); if (m < 1e-30L) return std::max(slab, s.rec(q));
                for (auto& x : q) x /= z; return std::max(slab, m * s.g(q));
            },
            [=](const A<M + 1>& d) { A<M> e = drop(d), f; for (int i = 0; i < M; ++i) f[i] = -e[i]; auto at = [&](R z) { return z * d[M] + (z >= 0 ? z * s.h(e) : -z * s.h(f)); }; return std::max(at(lo), at(hi)); },
            [](const A<M + 1>& d) { return len(d); }, false};
}
/// image of s under x -> M x + t
template <int N> Solid<N> moved(Solid<N> s, std::array<A<N>, N> M, A<N> t) {
    // inverse by Gauss-Jordan
    std::array<A<N>, N> W = M, I{}; for (int i = 0; i < N; ++i) I[i][i] = 1;
    for (int c = 0; c < N; ++c) { int p = c; for (int r = c; r < N; ++r) if (std::abs(W[r][c]) > std::abs(W[p][c])) p = r; std::swap(W[c], W[p]); std::swap(I[c], I[p]); R k = W[c][c]; for (int j = 0; j < N; ++j) { W[c][j] /= k; I[c][j] /= k; } for (int r = 0; r < N; ++r) if (r != c) { R f = W[r][c]; for (int j = 0; j < N; ++j) { W[r][j] -= f * W[c][j]; I[r][j] -= f * I[c][j]; } } }
    bool rigid = true; for (int i = 0; i < N; ++i) for (int j = 0; j < N; ++j) rigid = rigid and std::abs(dot(M[i], M[j]) - (i == j)) < 1e-12L;
    auto inv = [=](const A<N>& v) { A<N> o{}; for (int i = 0; i < N; ++i) for (int j = 0; j < N; ++j) o[i] += I[i][j] * v[j]; return o; };
    return {[=](const A<N>& p) { return s.g(inv(lin(p, -1, t))); }, [=](const A<N>& d) { A<N> e{}; for (int i = 0; i < N; ++i) for (int j = 0; j < N; ++j) e[j] += M[i][j] * d[i]; return s.h(e) + dot(t, d); }, [=](const A<N>& d) { return s.rec(inv(d)); }, s.metric and rigid};
}
/// where the line o + s d meets {g <= 0}: minimum value of g and the interval (valid when min < 0)
template <int N> struct Hit { R min, at, lo, hi; };
template <int N> Hit<N> trace(const Solid<N>& s, const A<N>& o, const A<N>& d, R a, R b) {
    auto f = [&](R t) { return s.g(lin(o, t, d)); };
    R x = a, y = b; const R phi = 0.6180339887498948482L; R u = y - phi * (y - x), v = x + phi * (y - x), fu = f(u), fv = f(v);
    for (int i = 0; i < 110 and y - x > 1e-16L; ++i) { if (fu <= fv) { y = v; v = u; fv = fu; u = y - phi * (y - x); fu = f(u); } else { x = u; u = v; fu = fv; v = x + phi * (y - x); fv = f(v); } }
    Hit<N> h; h.at = fu < fv ? u : v; h.min = std::min(fu, fv); h.lo = h.hi = h.at;
    if (h.min < 0) {
        auto edge = [&](R in, R out) { if (f(out) <= 0) return out; for (int i = 0; i < 80; ++i) { R m = (in + out) / 2; (f(m) <= 0 ? in : out) = m; } return in; };
        h.lo = edge(h.at, a); h.hi = edge(h.at, b);
    }
    return h;
}
} // namespace tr
