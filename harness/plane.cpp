// C24: planes against their defining equation.
#include "hull.h"
#include <geomc/linalg/Vec.h>
#include <geomc/linalg/Ray.h>
#include <geomc/linalg/AffineTransform.h>
#include <geomc/shape/Rect.h>
#include <geomc/shape/Sphere.h>
#include <geomc/shape/Capsule.h>
#include <geomc/shape/Cylinder.h>
#include <geomc/shape/Simplex.h>
#include <geomc/shape/Plane.h>
#include <geomc/shape/Dilated.h>
using namespace geom;
using hull::R; using hull::A; using tr::lin; using tr::dot; using tr::len;
#ifndef ET
#define ET double
#endif
typedef ET T;
static uint64_t IDX; static std::string ctx;
static const R TOL = sizeof(T) == 8 ? 1e-11L : 3e-5L;
static T SC = 1; // unit of length: points, shapes, translations and given normals are scaled by it
#define XF_SCALE SC
#include "moves.h"
template <int N> static A<N> a_(const Vec<T, N>& v) { A<N> a; for (int i = 0; i < N; ++i) a[i] = v[i]; return a; }
template <int N> static std::vector<A<N>> tup(std::vector<R> v) { std::vector<A<N>> o; lat::tuples<N, R>(v, [&](const A<N>& a) { o.push_back(a); }); return o; }
template <int N> static std::vector<A<N>> nz(std::vector<A<N>> v) { std::vector<A<N>> o; for (auto& a : v) if (dot(a, a) > 0) o.push_back(a); return o; }
template <int N> static Vec<T, N> p_(const A<N>& a) { return v_<N>(a) * SC; }
template <int N> static A<N> un(const Vec<T, N>& v) { A<N> a; for (int i = 0; i < N; ++i) a[i] = (R)v[i] / SC; return a; }
/// pl must be the plane n.x + d = 0 with |n| = 1
template <int N> static void same(const char* key, const Plane<T, N>& pl, A<N> n, R d, const std::vector<A<N>>& pts, bool either = false) {
    mc::trace(); A<N> got = a_<N>(pl.normal); if (either and dot(got, n) < 0) { for (auto& x : n) x = -x; d = -d; }
    if (not(len(lin(got, -1, n)) <= TOL)) { mc::fail(key, mc::str(ctx, ": ", key, " normal ", lat::show(got), " expected ", lat::show(n))); return; }
    for (auto& p : pts) {
        R want = dot(n, p) + d; Vec<T, N> v = p_<N>(p); mc::step(); R tol = TOL * 10;
        if (not(std::abs(pl.distance(v) / (R)SC - want) <= tol) or not(std::abs(pl.sdf(v) / (R)SC - want) <= tol)) mc::fail(key, mc::str(ctx, ": ", key, " distance of ", lat::show(p), " = ", (R)pl.distance(v) / SC, " / ", (R)pl.sdf(v) / SC, " expected ", want));
        if (std::abs(want) > tol and pl.contains(v) != (want < 0)) mc::fail(key, mc::str(ctx, ": ", key, " contains ", lat::show(p), " says ", pl.contains(v), " at distance ", want));
        A<N> q = un<N>(pl.project(v)); if (not(len(lin(q, -1, lin(p, -want, n))) <= tol)) mc::fail(key, mc::str(ctx, ": ", key, " projects ", lat::show(p), " to ", lat::show(q)));
    }
    A<N> o = un<N>(pl.origin()); if (not(len(lin(o, d, n)) <= TOL * 10)) mc::fail(key, mc::str(ctx, ": ", key, " origin ", lat::show(o)));
}
template <int N> static void run() {
    const bool all = SC == 1; // other units: fewer planes
    auto pts = tup<N>(N == 2 ? std::vector<R>{-2, -0.5L, 0, 1, 2.5L} : N == 3 ? std::vector<R>{-1, 0, 0.5L, 2} : N == 4 ? std::vector<R>{-1, 0.5L, 2} : std::vector<R>{-1, 1.5L});
    auto normals = nz<N>(tup<N>(N == 5 and (not all or mc::tier(0, 1)) ? std::vector<R>{-1, 0, 2} : not all ? std::vector<R>{-1, 0, 2} : mc::tier(0, 1) ? std::vector<R>{-3, -1.5L, -1, 0, 0.25L, 1, 2} : N == 2 ? std::vector<R>{-2, -1, 0, 0.5L, 1, 3} : N == 3 ? std::vector<R>{-1, 0, 0.5L, 2} : N == 4 ? std::vector<R>{-1, 0, 2} : std::vector<R>{0, 1}));
    auto thru = tup<N>(not all ? std::vector<R>{0.5L} : N == 2 ? std::vector<R>{-1, 0, 0.5L, 2} : N == 3 ? std::vector<R>{-1, 0.5L} : N == 4 ? std::vector<R>{0, 0.5L} : std::vector<R>{0.5L}); thru.push_back(A<N>{});
    auto xfs = transforms<N>(); mc::bound(mc::str("normals ", N, "D"), normals.size()); mc::bound(mc::str("points ", N, "D"), pts.size());
    if (mc::begin("default", IDX++)) { mc::state(); ctx = mc::str(N, "D"); A<N> x{}; x[0] = 1; same<N>("default", Plane<T, N>(), x, 0, pts); }
    for (auto& n0 : normals) {
        A<N> n = n0; R L = len(n); for (auto& c : n) c /= L;
        for (auto& p : thru) {
            if (not mc::begin("plane", IDX++)) continue;
            mc::state(); R d = -dot(n, p); ctx = mc::str(N, "D plane normal ", lat::show(n0), " through ", lat::show(p)); Plane<T, N> pl(p_<N>(n0), p_<N>(p)); same<N>("plane", pl, n, d, pts); same<N>("plane through the origin", Plane<T, N>(p_<N>(n0)), n, 0, pts);
            MC_CHECK((pl == Plane<T, N>(p_<N>(n0), p_<N>(p)) and geom::hash<Plane<T, N>, size_t>(pl) == geom::hash<Plane<T, N>, size_t>(Plane<T, N>(p_<N>(n0), p_<N>(p)))), "hash", ctx);
            for (R e : {0.5L, -1.0L}) same<N>("dilate", dilate(pl, (T)e * SC), n, d - e, pts);
            // transforms: the image of the half space
            for (auto& x : xfs) {
                auto W = hull::A<N>{}; (void)W; std::vector<std::vector<R>> Mt(N, std::vector<R>(N)), Mm = Mt; std::vector<R> b(N), s; for (int i = 0; i < N; ++i) { b[i] = n[i]; for (int j = 0; j < N; ++j) { Mt[i][j] = x.M[j][i]; Mm[i][j] = x.M[i][j]; } }
                hull::solve(Mt, b, s); A<N> m; for (int i = 0; i < N; ++i) m[i] = s[i]; R k = len(m); for (auto& c : m) c /= k; R dm = d / k - dot(m, x.t);
                Plane<T, N> q = pl; q *= x.xf; same<N>("transform", x.xf * pl, m, dm, pts); same<N>("in-place transform", q, m, dm, pts); Plane<T, N> a = pl; a.apply(x.xf); same<N>("apply", a, m, dm, pts);
                q /= x.xf; same<N>("undone transform", q, n, d, pts);
                A<N> u{}; for (int j = 0; j < N; ++j) for (int i = 0; i < N; ++i) u[j] += x.M[i][j] * n[i]; R h = len(u); R du = (d + dot(n, x.t)) / h; for (auto& c : u) c /= h; same<N>("inverse transform", pl / x.xf, u, du, pts); Plane<T, N> c = pl; c.apply_inverse(x.xf); same<N>("apply_inverse", c, u, du, pts);
            }
            // shapes: entirely behind / crossing; contact is left open
            auto solid = [&](const char* what, const auto& s, R hi, R lo) { mc::step(); hi += d; lo += d; if (std::abs(hi) > TOL * 10) { MC_CHECK(pl.contains(s) == (hi < 0), "contains shape", ctx, " ", what, " reaches ", hi, " contains says ", pl.contains(s)); if (std::abs(lo) > TOL * 10) MC_CHECK(pl.intersects(s) == (hi > 0 and lo < 0), "intersects shape", ctx, " ", what, " spans [", lo, ", ", hi, "] intersects says ", pl.intersects(s)); } };
            A<N> neg; for (int i = 0; i < N; ++i) neg[i] = -n[i];
            auto both = [&](const char* what, const auto& s, const tr::Solid<N>& t) { solid(what, s, t.h(n), -t.h(neg)); };
            for (auto& c : thru) for (R r : {0.25L, 1.0L}) both("sphere", Sphere<T, N>(p_<N>(c), (T)r * SC), tr::sphere<N>(c, r));
            for (auto& c : thru) { A<N> hi = c; for (int i = 0; i < N; ++i) hi[i] += 0.5L + i; both("box", Rect<T, N>(p_<N>(c), p_<N>(hi)), tr::box<N>(c, hi)); both("capsule", Capsule<T, N>(p_<N>(c), p_<N>(hi), (T)0.25 * SC), tr::capsule<N>(c, hi, 0.25L)); both("cylinder", Cylinder<T, N>(p_<N>(c), p_<N>(hi), (T)0.25 * SC), tr::cylinder<N>(c, hi, 0.25L)); }
            // point hulls
            for (auto& c : thru) for (auto& e : thru) { std::vector<A<N>> h{c, e, lin(c, -1, e)}; for (size_t k = 0; k <= h.size(); ++k) { std::vector<Vec<T, N>> v; R hi = -INFINITY, lo = INFINITY; bool vague = false; for (size_t i = 0; i < k; ++i) { v.push_back(p_<N>(h[i])); R q = dot(n, h[i]) + d; hi = std::max(hi, q); lo = std::min(lo, q); if (std::abs(q) <= TOL * 10) vague = true; } mc::step(); if (not vague or (hi > TOL * 10 and lo < -TOL * 10)) MC_CHECK(pl.intersects(v.data(), (index_t)k) == (k and hi > 0 and lo < 0), "hull", ctx, " hull of ", k, " points spans [", lo, ", ", hi, "]"); } }
        }
    }
    // planes spanned by points
    auto V = N == 2 ? tup<N>({-1, 0, 2}) : N == 3 ? tup<N>({0, 1}) : std::vector<A<N>>(); if constexpr (N == 3) { V.push_back({-1, 2, 1}); V.push_back({2, -1, 3}); } if constexpr (N == 5) V = {{0, 0, 0, 0, 0}, {1, 0, 0, 0, 0}, {0, 1, 0, 0, 0}, {0, 0, 1, 0, 0}, {0, 0, 0, 1, 0}, {-1, 1, 2, 0, 3}, {2, 1, 1, -1, 1}}; if constexpr (N == 4) V = {{0, 0, 0, 0}, {1, 0, 0, 0}, {0, 1, 0, 0}, {0, 0, 1, 0}, {0, 0, 0, 1}, {1, 1, 0, 2}, {-1, 1, 2, 0}, {2, 1, 1, 1}};
    std::vector<size_t> ix(N, 0);
    for (;;) {
        std::vector<A<N>> v; for (int i = 0; i < N; ++i) v.push_back(V[ix[i]]);
        if (hull::gram<N>(v) > 1e-9L and mc::begin("spanned", IDX++)) {
            mc::state(); ctx = mc::str(N, "D plane through ", lat::show(v[0]), lat::show(v[1]), "..."); Vec<T, N> raw[N], bs[N - 1]; for (int i = 0; i < N; ++i) raw[i] = p_<N>(v[i]); for (int i = 1; i < N; ++i) bs[i - 1] = raw[i] - raw[0];
            // reference normal: any vector leaving the span, made orthogonal to it
            A<N> n{}; for (int k = 0; k < N; ++k) { A<N> e{}; e[k] = 1; std::vector<R> w; A<N> q = lin(v[0], 1, e); hull::coords<N>(v, q, w); A<N> r = lin(q, -1, hull::at<N>(v, w)); if (len(r) > len(n)) n = r; } R L = len(n); for (auto& c : n) c /= L;
            same<N>("from_simplex", Plane<T, N>::from_simplex(raw), n, -dot(n, v[0]), pts, true); same<N>("from_basis at a point", Plane<T, N>::from_basis(bs, raw[0]), n, -dot(n, v[0]), pts, true); same<N>("from_basis", Plane<T, N>::from_basis(bs), n, 0, pts, true);
        }
        int i = 0; for (; i < N; ++i) { if (++ix[i] < V.size()) break; ix[i] = 0; } if (i == N) break;
    }
}
void mc_run() { IDX = 0; mc::bound("element type", sizeof(T) == 8 ? "double" : "float"); for (int e : {-10, 10, 0}) { SC = std::ldexp((T)1, e); run<2>(); run<3>(); run<4>(); run<5>(); } SC = 1; }
