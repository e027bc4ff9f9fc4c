// C23: simplexes of every vertex count against brute-force convex hull geometry.
#include "hull.h"
#include <geomc/linalg/Vec.h>
#include <geomc/linalg/Ray.h>
#include <geomc/linalg/AffineTransform.h>
#include <geomc/shape/Rect.h>
#include <geomc/shape/Simplex.h>
using namespace geom;
using hull::R; using hull::A; using tr::lin; using tr::dot; using tr::len;
#ifndef ET
#define ET double
#endif
typedef ET T;
static uint64_t IDX;
static const R TOL = sizeof(T) == 8 ? 1e-10L : 2e-4L;
template <int N> static Vec<T, N> v_(const A<N>& a) { Vec<T, N> v; for (int i = 0; i < N; ++i) v[i] = (T)a[i]; return v; }
template <int N> static A<N> a_(const Vec<T, N>& v) { A<N> a; for (int i = 0; i < N; ++i) a[i] = v[i]; return a; }
template <int N> static bool finite(const A<N>& a) { for (R x : a) if (not std::isfinite(x)) return false; return true; }
template <int N> static bool close(const A<N>& a, const A<N>& b) { return finite<N>(a) and len(lin(a, -1, b)) <= TOL; }
static std::string ctx;
static R fact(int k) { R f = 1; for (int i = 2; i <= k; ++i) f *= i; return f; }
template <int N> static std::vector<A<N>> verts(const Simplex<T, N>& s) { std::vector<A<N>> o; for (int i = 0; i < s.n; ++i) o.push_back(a_<N>(s.pts[i])); return o; }
template <int N> static std::string show(const std::vector<A<N>>& v) { std::string s; for (auto& a : v) s += lat::show(a); return s; }
template <int N> static R orient(const std::vector<A<N>>& v) { // determinant of the edge matrix
    std::vector<std::vector<R>> M(N, std::vector<R>(N)); for (int i = 0; i < N; ++i) for (int j = 0; j < N; ++j) M[i][j] = v[i + 1][j] - v[0][j];
    R d = 1; for (int c = 0; c < N; ++c) { int p = c; for (int r = c; r < N; ++r) if (std::abs(M[r][c]) > std::abs(M[p][c])) p = r; if (M[p][c] == 0) return 0; if (p != c) { std::swap(M[p], M[c]); d = -d; } d *= M[c][c]; for (int r = c + 1; r < N; ++r) { R f = M[r][c] / M[c][c]; for (int j = c; j < N; ++j) M[r][j] -= f * M[c][j]; } } return d;
}
/// the reported face consists of vertices of the simplex and carries the projected point
template <int N> static void face_ok(const char* key, const std::vector<A<N>>& v, const Simplex<T, N>& f, const A<N>& q, const A<N>& p) {
    auto fv = verts<N>(f); bool ok = f.n >= 1 and f.n <= (index_t)v.size(); std::vector<bool> used(v.size());
    for (auto& a : fv) { bool hit = false; for (size_t i = 0; i < v.size() and not hit; ++i) if (not used[i] and a == v[i]) used[i] = hit = true; ok = ok and hit; }
    ok = ok and hull::dist<N>(fv, q) <= TOL;
    if (not ok) mc::fail(key, mc::str(ctx, " point ", lat::show(p), " lands on ", lat::show(q), " but reports the face ", show<N>(fv)));
}
template <int N> struct Lat { std::vector<A<N>> pts, orig, dirs; };
template <int N> static void one(const std::vector<A<N>>& v, const Lat<N>& l) {
    if (not mc::begin("simplex", IDX++)) return;
    mc::state(); const int n = v.size(); ctx = mc::str(N, "D simplex ", show<N>(v));
    std::vector<Vec<T, N>> raw; for (auto& a : v) raw.push_back(v_<N>(a)); const Simplex<T, N> s(raw.data(), n);
    const R g = n > 1 ? hull::gram<N>(v) : 1; const bool indep = g > 1e-9L, full = n == N + 1 and indep;
    // construction and editing
    { Simplex<T, N> t; for (auto& a : raw) t.insert(a); bool same = t.n == n; for (int i = 0; i < n; ++i) same = same and t.pts[i] == raw[i] and s[i] == raw[i]; MC_CHECK(same and t == s and not(t != s), "insert", ctx); MC_CHECK((geom::hash<Simplex<T, N>, size_t>(t) == geom::hash<Simplex<T, N>, size_t>(s)), "hash", ctx);
      Simplex<T, N> u = s | raw[0]; MC_CHECK(u.n == (n == N + 1 ? n : n + 1) and (n == N + 1 or u.pts[n] == raw[0]) and (u == s) == (n == N + 1), "operator|", ctx); t |= raw[0]; MC_CHECK(t == u, "operator|=", ctx);
      // equality: the same vertices in the same order; unused slots do not count
      for (int i = 0; i < n; ++i) {
          for (int c = 0; c < N; ++c) { Simplex<T, N> x = s; x.pts[i][c] += T(0.5); MC_CHECK(not(x == s) and not(s == x) and x != s and s != x, "equality", ctx, " equals itself with vertex ", i, " moved along axis ", c); }
          for (int j = 0; j < i; ++j) { Simplex<T, N> x = s; std::swap(x.pts[i], x.pts[j]); bool same = raw[i] == raw[j]; MC_CHECK((x == s) == same and (s != x) == not same, "equality", ctx, " with vertices ", j, " and ", i, " exchanged compares wrong"); }
      }
      for (int k = 0; k <= N; ++k) { Simplex<T, N> x = s; for (int i = n; i <= N; ++i) x.pts[i] = v_<N>(v[0]) + Vec<T, N>(T(i + k)); MC_CHECK(x == s and not(x != s), "equality", ctx, " compares its unused vertices"); if (n > k) { Simplex<T, N> y(raw.data(), k); MC_CHECK(not(y == s) and not(s == y), "equality", ctx, " equals the simplex of its first ", k, " vertices"); } }
      for (int i = 0; i < n; ++i) { Simplex<T, N> x = s.excluded(i), y = s; y.exclude(i); bool ok = x.n == n - 1 and y.n == n - 1; for (int j = 0, k = 0; j < n; ++j) if (j != i) { ok = ok and x.pts[k] == raw[j] and y.pts[k] == raw[j]; ++k; } MC_CHECK(ok, "excluded", ctx, " without vertex ", i); }
      A<N> sh; for (int i = 0; i < N; ++i) sh[i] = i + 1; Simplex<T, N> m = s; m *= translation(v_<N>(sh)); for (int i = 0; i < n; ++i) MC_CHECK(close<N>(a_<N>(m.pts[i]), lin(v[i], 1, sh)), "transform", ctx); m /= translation(v_<N>(sh)); for (int i = 0; i < n; ++i) MC_CHECK(close<N>(a_<N>(m.pts[i]), v[i]), "untransform", ctx); }
    // measure
    if (n == N + 1) { R d = orient<N>(v) / fact(N); MC_CHECK(std::abs(s.volume() - d) <= TOL, "volume", ctx, " has volume ", (R)s.volume(), " expected ", d); } else MC_CHECK(s.volume() == 0, "volume of a flat simplex", ctx);
    if (n > 1) { R m = std::sqrt(std::max<R>(g, 0)) / fact(n - 1); MC_CHECK(std::abs(s.measure() - m) <= (indep ? TOL : std::sqrt(TOL)), "measure", ctx, " has measure ", (R)s.measure(), " expected ", m); }
    // support, bounds
    { Rect<T, N> b = s.bounds(); for (int i = 0; i < N; ++i) { R lo = INFINITY, hi = -INFINITY; for (auto& a : v) { lo = std::min(lo, a[i]); hi = std::max(hi, a[i]); } MC_CHECK(b.lo[i] == lo and b.hi[i] == hi, "bounds", ctx, " axis ", i); } for (auto& d : l.dirs) { R m = -INFINITY; for (auto& a : v) m = std::max(m, dot(a, d)); A<N> q = a_<N>(s.convex_support(v_<N>(d))); bool isv = false; for (auto& a : v) isv = isv or a == q; MC_CHECK(isv and std::abs(dot(q, d) - m) <= TOL, "support", ctx, " along ", lat::show(d), " gave ", lat::show(q)); } }
    if (not indep) { // a degenerate simplex has no interior
        if (n == N + 1) for (auto& p : l.pts) if (hull::dist<N>(v, p) > TOL) MC_CHECK(not s.contains(v_<N>(p)), "degenerate contains", ctx, " contains ", lat::show(p));
        return;
    }
    for (auto& p : l.pts) {
        mc::trace(); R d = hull::dist<N>(v, p), dep = full ? hull::depth<N>(v, p) : -INFINITY; bool inside = full and dep > 0; R sd = inside ? -dep : d; Vec<T, N> x = v_<N>(p);
        // membership
        if (n < N + 1) MC_CHECK(not s.contains(x), "contains of a flat simplex", ctx); else if (std::abs(sd) > TOL) MC_CHECK(s.contains(x) == inside, "contains", ctx, " point ", lat::show(p), " signed distance ", sd, " contains says ", s.contains(x));
        // nearest points
        { Simplex<T, N> f; Vec<T, N> q_ = s.clip(x, &f); A<N> q = a_<N>(q_); mc::step(); bool ok = finite<N>(q) and hull::dist<N>(v, q) <= TOL and std::abs(len(lin(q, -1, p)) - (inside ? 0 : d)) <= TOL; if (not ok) mc::fail("clip", mc::str(ctx, " point ", lat::show(p), " clipped to ", lat::show(q), ", ", len(lin(q, -1, p)), " away; expected ", inside ? 0 : d)); else face_ok<N>("clip face", v, f, q, p);
          Simplex<T, N> al = s; Vec<T, N> q2 = al.clip(x, &al); MC_CHECK(q2 == q_ and al == f, "clip onto itself", ctx); }
        { Simplex<T, N> f; Vec<T, N> y = x; Vec<T, N> q_ = s.project(y, &f); A<N> q = a_<N>(q_); mc::step(); bool ok = finite<N>(q) and hull::dist<N>(v, q) <= TOL and (not full or std::abs(hull::depth<N>(v, q)) <= TOL or not(hull::depth<N>(v, q) > 0)) and std::abs(len(lin(q, -1, p)) - std::abs(sd)) <= TOL; if (not ok) mc::fail("project", mc::str(ctx, " point ", lat::show(p), " projected to ", lat::show(q), ", ", len(lin(q, -1, p)), " away; expected ", std::abs(sd))); else face_ok<N>("project face", v, f, q, p); }
        { R k = s.sdf(x); mc::step(); if (not(std::abs(k - sd) <= TOL)) mc::fail("sdf", mc::str(ctx, " point ", lat::show(p), " sdf ", k, " expected ", sd)); }
        if (sd > 1e-2L) { Vec<T, N> n_ = s.normal(x); A<N> nn = a_<N>(n_); A<N> q = a_<N>(s.clip(x)); A<N> want = lin(p, -1, q); R L = len(nn); mc::step(); if (not(L > 0) or not finite<N>(nn) or not(std::abs(dot(nn, want) / (L * len(want)) - 1) <= TOL)) mc::fail("normal", mc::str(ctx, " point ", lat::show(p), " normal ", lat::show(nn), " expected along ", lat::show(want))); }
        // orthogonal shadow
        if (n > 1) {
            std::vector<R> w; hull::coords<N>(v, p, w); R sum = 1, margin = INFINITY; for (R c : w) { sum -= c; margin = std::min(margin, c); } margin = std::min(margin, sum);
            Vec<T, N> par; bool in = s.is_facing(x, &par), in2 = s.is_facing(x); mc::step();
            if (std::abs(margin) > TOL) { if (in != (margin > 0) or in2 != in) mc::fail("is_facing", mc::str(ctx, " point ", lat::show(p), ": ", in, " / ", in2, " but its barycentric margin is ", margin)); else if (in) for (int i = 0; i < n - 1; ++i) MC_CHECK(std::abs(par[i] - w[i]) <= TOL, "is_facing parameters", ctx, " point ", lat::show(p), " parameter ", i, " = ", (R)par[i], " expected ", w[i]); }
        } else MC_CHECK(s.is_facing(x), "is_facing a point", ctx);
    }
    // the same simplex far away from unit scale: everything scales with it
    {
        const int e = IDX & 1 ? 12 : -12; const R k = std::ldexp(1.0L, e); std::vector<Vec<T, N>> big; for (auto& a : raw) big.push_back(a * (T)k); const Simplex<T, N> z(big.data(), n); const std::string cx = mc::str(ctx, " scaled by 2^", e);
        if (n == N + 1) { R d = s.volume(), h = z.volume() / std::pow(k, N); MC_CHECK(std::abs(d - h) <= TOL, "scaled volume", cx, " ", h, " expected ", d); }
        if (n > 1) { R d = s.measure(), h = z.measure() / std::pow(k, n - 1); MC_CHECK(std::abs(d - h) <= TOL, "scaled measure", cx, " ", h, " expected ", d); }
        for (auto& p : l.pts) {
            mc::trace(); mc::step(4); Vec<T, N> x = v_<N>(p), y = x * (T)k; R sd = s.sdf(x), sz = z.sdf(y) / k; MC_CHECK(std::abs(sd - sz) <= TOL, "scaled sdf", cx, " point ", lat::show(p), " ", sz, " expected ", sd);
            if (std::abs(sd) > TOL) MC_CHECK(s.contains(x) == z.contains(y), "scaled contains", cx, " point ", lat::show(p));
            A<N> q = a_<N>(s.clip(x)), w = a_<N>(z.clip(y)); for (auto& c : w) c /= k; MC_CHECK(close<N>(w, q), "scaled clip", cx, " point ", lat::show(p), " ", lat::show(w), " expected ", lat::show(q));
            q = a_<N>(s.project(x)), w = a_<N>(z.project(y)); for (auto& c : w) c /= k; MC_CHECK(finite<N>(w) and std::abs(len(lin(w, -1, p)) - len(lin(q, -1, p))) <= TOL, "scaled project", cx, " point ", lat::show(p), " ", lat::show(w), " expected ", lat::show(q));
        }
        // rays: long and short directions too
        if (n >= N) for (auto& o : l.orig) for (auto& d : l.dirs) for (int m = 0; m < 2; ++m) {
            mc::trace(); mc::step(); Rect<T, 1> a = s.intersect(Ray<T, N>(v_<N>(o), v_<N>(d))), b = m ? s.intersect(Ray<T, N>(v_<N>(o), v_<N>(d) * (T)k)) : z.intersect(Ray<T, N>(v_<N>(o) * (T)k, v_<N>(d) * (T)k)); R f = m ? k : 1; bool ea = not(a.lo <= a.hi), eb = not(b.lo <= b.hi);
            R blo = b.lo * f, bhi = b.hi * f; if (ea and eb) continue; bool thin = (ea or a.hi - a.lo <= TOL * 10) and (eb or bhi - blo <= TOL * 10); if (full and thin) continue;
            if (n == N) { std::vector<A<N>> vv = v; R margin = 1; std::vector<std::vector<R>> M(N, std::vector<R>(N)); std::vector<R> bb(N), xx; for (int r = 0; r < N; ++r) { for (int c = 0; c + 1 < N; ++c) M[r][c] = v[c + 1][r] - v[0][r]; M[r][N - 1] = -d[r]; bb[r] = o[r] - v[0][r]; } if (not hull::solve(M, bb, xx)) continue; for (int i = 0; i + 1 < N; ++i) margin -= xx[i]; for (int i = 0; i + 1 < N; ++i) margin = std::min(margin, xx[i]); if (std::abs(margin) <= TOL) continue; }
            MC_CHECK(ea == eb and std::abs(a.lo - blo) <= TOL * 10 and std::abs(a.hi - bhi) <= TOL * 10, m ? "direction length" : "scaled ray", cx, " ray ", lat::show(o), " + s ", lat::show(d), " gave [", blo, ", ", bhi, "] expected [", (R)a.lo, ", ", (R)a.hi, "]");
        }
    }
    // rays
    if (full) {
        tr::Solid<N> t{[&](const A<N>& p) { R m = -hull::depth<N>(v, p); return m; }, {}, {}, false}; // max of plane distances: convex, zero on the surface
        // facet planes, once
        std::vector<std::pair<A<N>, R>> pl; for (int i = 0; i <= N; ++i) { std::vector<A<N>> f; for (int j = 0; j <= N; ++j) if (j != i) f.push_back(v[j]); std::vector<R> u; hull::coords<N>(f, v[i], u); A<N> nn = lin(hull::at<N>(f, u), -1, v[i]); R L = len(nn); for (auto& c : nn) c /= L; pl.push_back({nn, dot(nn, f[0])}); }
        for (auto& o : l.orig) for (auto& d : l.dirs) {
            R lo = -INFINITY, hi = INFINITY, gap = -INFINITY; for (auto& [nn, k] : pl) { R a = dot(nn, d), b = k - dot(nn, o); if (std::abs(a) < 1e-15L) gap = std::max(gap, -b); else if (a > 0) hi = std::min(hi, b / a); else lo = std::max(lo, b / a); }
            Rect<T, 1> iv = s.intersect(Ray<T, N>(v_<N>(o), v_<N>(d))); bool empty = not(iv.lo <= iv.hi); mc::trace(); mc::step(); R m = std::max(gap, (lo - hi) * len(d)); R tol = TOL * 10;
            bool ok = m > tol ? empty : m < -tol ? (not empty and std::abs(iv.lo - lo) <= tol and std::abs(iv.hi - hi) <= tol) : (empty or (iv.lo >= lo - tol and iv.hi <= hi + tol));
            if (not ok) mc::fail("ray", mc::str(ctx, " ray ", lat::show(o), " + s ", lat::show(d), " gave [", (R)iv.lo, ", ", (R)iv.hi, "] expected [", lo, ", ", hi, "]", gap > 0 ? " (outside a slab)" : ""));
        }
    } else if (n == N) for (auto& o : l.orig) for (auto& d : l.dirs) {
        // o + s d = v0 + sum u_i e_i
        std::vector<std::vector<R>> M(N, std::vector<R>(N)); std::vector<R> b(N), x; for (int r = 0; r < N; ++r) { for (int c = 0; c + 1 < N; ++c) M[r][c] = v[c + 1][r] - v[0][r]; M[r][N - 1] = -d[r]; b[r] = o[r] - v[0][r]; }
        Rect<T, 1> iv = s.intersect(Ray<T, N>(v_<N>(o), v_<N>(d))); bool empty = not(iv.lo <= iv.hi); mc::trace(); mc::step();
        if (not hull::solve(M, b, x)) { continue; } // parallel to the plane
        R margin = 1; for (int i = 0; i + 1 < N; ++i) margin -= x[i]; for (int i = 0; i + 1 < N; ++i) margin = std::min(margin, x[i]); if (std::abs(margin) <= TOL) continue;
        bool ok = margin < 0 ? empty : (not empty and iv.lo == iv.hi and std::abs(iv.lo - x[N - 1]) <= TOL * 10);
        if (not ok) mc::fail("flat ray", mc::str(ctx, " ray ", lat::show(o), " + s ", lat::show(d), " gave [", (R)iv.lo, ", ", (R)iv.hi, "] expected ", margin < 0 ? std::string("a miss") : mc::str(x[N - 1])));
        Vec<T, N - 1> uv; T ss = 0; bool hit = trace_simplex<T, N>(raw.data(), Ray<T, N>(v_<N>(o), v_<N>(d)), &uv, &ss); mc::step();
        ok = hit == (margin > 0); if (ok and hit) { ok = std::abs(ss - x[N - 1]) <= TOL * 10; for (int i = 0; i + 1 < N; ++i) { R c = uv[i]; ok = ok and std::abs(c - x[i]) <= TOL * 10; } }
        if (not ok) mc::fail("trace_simplex", mc::str(ctx, " ray ", lat::show(o), " + s ", lat::show(d)));
    } else if (n < N) for (auto& o : l.orig) { Rect<T, 1> iv = s.intersect(Ray<T, N>(v_<N>(o), v_<N>(l.dirs[0]))); MC_CHECK(not(iv.lo <= iv.hi), "thin ray", ctx); }
}
template <int N> static void all(std::vector<A<N>> V, int n, bool ordered, const Lat<N>& l) {
    std::vector<size_t> ix(n, 0);
    for (;;) { std::vector<A<N>> v; bool skip = false; for (int i = 0; i < n; ++i) { v.push_back(V[ix[i]]); if (i and not ordered and ix[i] <= ix[i - 1]) skip = true; } if (not skip) one<N>(v, l); int i = 0; for (; i < n; ++i) { if (++ix[i] < V.size()) break; ix[i] = 0; } if (i == n) return; }
}
template <int N> static std::vector<A<N>> tup(std::vector<R> v) { std::vector<A<N>> o; lat::tuples<N, R>(v, [&](const A<N>& a) { o.push_back(a); }); return o; }
template <int N> static std::vector<A<N>> nz(std::vector<A<N>> v) { std::vector<A<N>> o; for (auto& a : v) if (dot(a, a) > 0) o.push_back(a); return o; }
void mc_run() {
    IDX = 0; mc::bound("element type", sizeof(T) == 8 ? "double" : "float");
#if MCP == 2
    Lat<2> l{tup<2>(mc::tier(std::vector<R>{-1, -0.5L, 0, 0.375L, 1, 1.25L, 2.5L}, std::vector<R>{-3, -1, -0.5L, 0, 0.375L, 0.5L, 1, 1.25L, 1.5L, 2, 2.5L, 4})), tup<2>({-1, 0.25L, 0.75L, 3}), nz<2>(tup<2>({-1, 0, 1, 0.5L}))};
    auto V = tup<2>({0, 1, 2}); all<2>(V, 1, true, l); all<2>(V, 2, true, l); all<2>(V, 3, true, l);
    if (mc::G().cfg.thorough) all<2>(tup<2>({-1, 0, 0.5L, 3}), 3, true, l);
#elif MCP == 3
    Lat<3> l{tup<3>(mc::tier(std::vector<R>{-0.5L, 0.25L, 0.5L, 1.5L}, std::vector<R>{-1, -0.25L, 0, 0.25L, 0.5L, 1, 1.5L})), tup<3>({-0.5L, 0.375L}), nz<3>(tup<3>({-1, 0, 0.5L}))};
    auto V = tup<3>({0, 1}); all<3>(V, 1, true, l); all<3>(V, 2, true, l); all<3>(V, 3, true, l); all<3>(V, 4, mc::G().cfg.thorough, l);
    std::vector<A<3>> W{{0, 0, 0}, {2, 0, 1}, {0, 1, 2}, {1, 2, 0}, {-1, 1, 1}, {2, 2, 2}, {1, 0, -1}}; all<3>(W, 3, true, l); all<3>(W, 4, true, l);
    if (mc::G().cfg.thorough) { auto B = tup<3>({0, 1, 2}); Lat<3> k{tup<3>({-0.5L, 0.25L, 1.5L}), l.orig, l.dirs}; all<3>(B, 4, false, k); all<3>(B, 3, false, l); }
#elif MCP == 5
    auto P5 = tup<5>({-0.5L, 0.375L}); P5.push_back({0.25L, 0.25L, 0.25L, 0.25L, 0.25L}); P5.push_back({0.125L, 0.25L, 0.125L, 0.0625L, 0.125L}); P5.push_back({1.25L, 0.5L, 0.75L, 1.25L, 0.5L});
    Lat<5> l{P5, {{-0.5L, 0.375L, 0.375L, 0.25L, -0.5L}, {0.375L, 0.375L, 0.25L, 0.375L, 0.25L}, {-0.5L, -0.5L, -0.5L, -0.5L, -0.5L}}, nz<5>(tup<5>({-1, 0.5L}))};
    std::vector<A<5>> W{{0, 0, 0, 0, 0}, {2, 0, 1, 0, 1}, {0, 1, 2, 1, -1}, {1, 2, 0, -1, 0}, {-1, 1, 1, 2, 1}, {1, 1, 0, 2, 0}, {0, -1, 1, 1, 2}};
    std::vector<A<5>> V{{0, 0, 0, 0, 0}}; for (int i = 0; i < 5; ++i) { A<5> e{}; e[i] = 1; V.push_back(e); e[(i + 2) % 5] = 1; V.push_back(e); }
    for (int n = 1; n <= 6; ++n) { all<5>(V, n, n < 3, l); all<5>(W, n, n < (mc::G().cfg.thorough ? 5 : 4), l); }
#else
    auto P4 = mc::G().cfg.thorough ? tup<4>({-0.5L, 0.25L, 1.25L}) : tup<4>({-0.5L, 0.375L}); for (auto& a : tup<4>({0.25L, mc::tier(1.25L, 0.5L)})) P4.push_back(a); Lat<4> l{P4, tup<4>({-0.5L, 0.375L}), nz<4>(tup<4>({-1, 0.5L}))};
    auto V = tup<4>({0, 1}); all<4>(V, 1, true, l); all<4>(V, 2, true, l); all<4>(V, 3, false, l); all<4>(V, 4, false, l); all<4>(V, 5, false, l);
    std::vector<A<4>> W{{0, 0, 0, 0}, {2, 0, 1, 0}, {0, 1, 2, 1}, {1, 2, 0, -1}, {-1, 1, 1, 2}, {1, 1, 0, 2}}; all<4>(W, 3, true, l); all<4>(W, 4, mc::G().cfg.thorough, l); all<4>(W, 5, mc::G().cfg.thorough, l);
#endif
}
