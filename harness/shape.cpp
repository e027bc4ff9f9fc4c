// C18-C21: every shape against a reference solid (containment / distances / rays / support and bounds).
#include "truth.h"
#include <geomc/linalg/Vec.h>
#include <geomc/linalg/Ray.h>
#include <geomc/linalg/AffineTransform.h>
#include <geomc/shape/Rect.h>
#include <geomc/shape/Sphere.h>
#include <geomc/shape/Capsule.h>
#include <geomc/shape/Cylinder.h>
#include <geomc/shape/Extruded.h>
#include <geomc/shape/Frustum.h>
#include <geomc/shape/Oriented.h>
#include <geomc/shape/Plane.h>
#include <geomc/shape/Dilated.h>
using namespace geom;
using tr::R; using tr::A; using tr::Solid; using tr::lin; using tr::dot; using tr::len;
#ifndef ET
#define ET double
#endif
typedef ET T;
static uint64_t IDX;
static const R TOL1 = sizeof(T) == 8 ? 1e-10L : 1e-4L;
/// regime of the current group: lengths (shape, query points, tolerances) are scaled by SC, directions given to the library by DK
static R SC = 1, DK = 1, TOL = TOL1;
static void regime(R sc, R dk) { SC = sc; DK = dk; TOL = TOL1 * sc; }
static std::string kind;
static void fl(const char* key, const std::string& d) { mc::fail((kind + ": " + key).c_str(), d); }
enum { CON = 1, SDF = 2, PRJ = 4, NRM = 8, CLP = 16, RAY = 32, SUP = 64, BND = 128, ALL = 255 };
#include "moves.h"
template <int N> static A<N> a_(const Vec<T, N>& v) { A<N> a; for (int i = 0; i < N; ++i) a[i] = v[i]; return a; }
template <int N> static bool finite(const A<N>& a) { for (R x : a) if (not std::isfinite(x)) return false; return true; }

template <int N> struct Lattices {
    std::vector<A<N>> pts, dirs, origins, rdirs, probe;
    Lattices() {
        std::vector<R> c = N == 2 ? mc::tier(std::vector<R>{-3, -2, -1.5L, -1, -0.5L, -0.25L, 0, 0.375L, 0.5L, 1, 1.25L, 2, 3}, std::vector<R>{-3, -2.5L, -2, -1.75L, -1.5L, -1, -0.75L, -0.5L, -0.25L, -0.125L, 0, 0.375L, 0.5L, 0.875L, 1, 1.25L, 1.5L, 2, 2.375L, 3, 5})
                       : N == 3 ? mc::tier(std::vector<R>{-2, -1, -0.5L, 0, 0.375L, 1, 2}, std::vector<R>{-3, -2, -1.5L, -1, -0.5L, 0, 0.375L, 0.75L, 1, 1.25L, 2, 3})
                                : N == 4 ? mc::tier(std::vector<R>{-2, -0.5L, 0, 1}, std::vector<R>{-2, -1, -0.5L, 0, 0.375L, 1, 2}) : mc::tier(std::vector<R>{-2, 0, 0.75L}, std::vector<R>{-2, -0.5L, 0, 1});
        auto keep = [](const A<N>& a) { int nz = 0; for (R x : a) nz += x != 0; return N < 5 or nz <= 1 or nz == N or (nz == 2 and mc::thorough()); }; // (five dimensions: axes and general directions)
        lat::tuples<N, R>(c, [&](const A<N>& a) { pts.push_back(a); });
        lat::tuples<N, R>(N < 4 ? std::vector<R>{-1, 0, 1, 0.25L} : std::vector<R>{-1, 0, 0.5L}, [&](const A<N>& a) { if (dot(a, a) > 0 and keep(a)) dirs.push_back(a); });
        lat::tuples<N, R>(N == 2 ? std::vector<R>{-2.5L, -1, -0.375L, 0, 0.5L, 1, 2} : N == 3 ? mc::tier(std::vector<R>{-2, 0, 0.375L, 1}, std::vector<R>{-2, -1, -0.375L, 0, 0.375L, 1, 2}) : mc::tier(std::vector<R>{-1.25L, 0.5L}, std::vector<R>{-1.25L, 0, 0.5L}), [&](const A<N>& a) { origins.push_back(a); });
        lat::tuples<N, R>(N == 2 ? std::vector<R>{-2, -1, 0, 1, 0.5L} : N == 3 ? mc::tier(std::vector<R>{-1, 0, 0.5L}, std::vector<R>{-1, 0, 0.5L, 1}) : std::vector<R>{-1, 0, 0.5L}, [&](const A<N>& a) { if (dot(a, a) > 0 and keep(a)) rdirs.push_back(a); });
        mc::bound(mc::str("points ", N, "D"), pts.size()); mc::bound(mc::str("directions ", N, "D"), dirs.size()); mc::bound(mc::str("rays ", N, "D"), origins.size() * rdirs.size());
    }
};
template <int N> static Lattices<N>& L() { static Lattices<N> l; return l; }

/// points within rounding of an axis of symmetry have no definite nearest point, unless the arithmetic there is exact
/// exact = every quantity of the definition is exactly representable, so surface points of the lattice must count as contained
template <int N> static A<N> times(A<N> a, R k) { for (auto& x : a) x *= k; return a; }
template <unsigned CAPS, int N, typename Shape> static void check(const std::string& name, const Shape& s, const Solid<N>& t, bool exact) {
    static_assert((int)Shape::N == N);
    const char* group = "shape";
    if (not mc::begin(group, IDX++)) return;
    mc::state(); kind = name.substr(0, name.find_first_of("(),[0123456789"));
    auto& l = L<N>(); if (SC != 1 or DK != 1) kind = mc::str("scale ", SC, "/", DK, " ") + kind;
    if (mc::part("contain")) if constexpr (CAPS & CON) for (auto& p_ : l.pts) {
        mc::trace(); mc::step(); A<N> p = times<N>(p_, SC); R g = t.g(p); bool in = s.contains(v_<N>(p));
        if (g < -TOL) { if (not in) fl("missing point", mc::str(name, " excludes ", lat::show(p), ", signed distance ", g)); }
        else if (g > TOL) { if (in) fl("extra point", mc::str(name, " contains ", lat::show(p), ", signed distance ", g)); }
        else if (exact and g == 0 and not in) fl("missing surface point", mc::str(name, " excludes its surface point ", lat::show(p)));
    }
    if (mc::part("dist")) for (auto& p_ : l.pts) { A<N> p = times<N>(p_, SC);
        if constexpr ((CAPS & (SDF | PRJ | NRM | CLP)) == 0) break; else {
        mc::trace(); Vec<T, N> v = v_<N>(p); R g = t.g(p); bool vague = not exact and t.core and t.core(p) < SC * (sizeof(T) == 8 ? 1e-6L : 1e-2L);
        if constexpr (CAPS & SDF) { mc::step(); R d = s.sdf(v); if (not(std::abs(d - g) <= TOL)) fl("sdf", mc::str(name, " at ", lat::show(p), ": sdf ", d, " expected ", g)); }
        if constexpr (CAPS & PRJ) if (not vague) { mc::step(); Vec<T, N> q_ = s.project(v); A<N> q = a_<N>(q_); if (not finite<N>(q) or not(std::abs(t.g(q)) <= TOL) or not(std::abs(len(lin(q, -1, p)) - std::abs(g)) <= TOL)) fl("project", mc::str(name, " at ", lat::show(p), ": projected to ", lat::show(q), " which has signed distance ", t.g(q), " and is ", len(lin(q, -1, p)), " away; expected distance ", g)); }
        if constexpr (CAPS & CLP) { mc::step(); Vec<T, N> q_ = s.clip(v); A<N> q = a_<N>(q_); R want = std::max<R>(g, 0); if (not finite<N>(q) or not(t.g(q) <= TOL) or not(std::abs(len(lin(q, -1, p)) - want) <= TOL)) fl("clip", mc::str(name, " at ", lat::show(p), ": clipped to ", lat::show(q), " which has signed distance ", t.g(q), " and is ", len(lin(q, -1, p)), " away; expected ", want)); }
        if constexpr (CAPS & NRM) if (not vague) {
            mc::step(); Vec<T, N> n_ = s.normal(v); A<N> n = a_<N>(n_); bool ok = finite<N>(n) and std::abs(len(n) - 1) <= TOL1;
            if (std::abs(g) > SC * (sizeof(T) == 8 ? 1e-4L : 1e-2L)) ok = ok and std::abs(t.g(lin(p, -g, n))) <= TOL * 100 and std::abs(len(lin(lin(p, -g, n), -1, p)) - std::abs(g)) <= TOL * 100;
            else if (std::abs(g) > TOL) ok = true; // too near the surface for the direction to be determined
            else if (ok) { R e = SC * 1e-3L, far = t.g(lin(p, e, n)); ok = std::abs(far - e) <= SC * 1e-5L + TOL * 10; }
            if (not ok) fl("normal", mc::str(name, " at ", lat::show(p), " (signed distance ", g, "): normal ", lat::show(n)));
        } }
    }
    if (mc::part("ray")) if constexpr (CAPS & RAY) for (auto& o_ : l.origins) for (auto& d_ : l.rdirs) {
        A<N> o = times<N>(o_, SC), d = times<N>(d_, SC);
        mc::trace(); mc::step(); const R S = 60; tr::Hit<N> h = tr::trace<N>(t, o, d, -S, S);
        Rect<T, 1> iv = s.intersect(Ray<T, N>(v_<N>(o), v_<N>(times<N>(d, DK)))); R lo = iv.lo * DK, hi = iv.hi * DK; bool empty = not(lo <= hi); R tol = TOL * 10;
        auto g = [&](R u) { return t.g(lin(o, u, d)); };
        auto say = [&]() { return mc::str(name, " ray ", lat::show(o), " + s ", lat::show(d), ": got ", empty ? std::string("empty") : mc::str("[", lo, ", ", hi, "]"), ", expected ", h.min > 0 ? std::string("empty") : mc::str("[", h.lo, ", ", h.hi, "]"), " (smallest signed distance ", h.min, ")"); };
        if (std::isnan(lo) or std::isnan(hi)) { fl("ray nan", say()); continue; }
        if (h.min > tol) { if (not empty) fl("ray false hit", say()); continue; }
        if (h.min >= -tol) { if (not empty and (std::abs(lo) > S or std::abs(hi) > S or g(lo) > tol * 10 or g(hi) > tol * 10)) fl("ray grazing", say()); continue; }
        if (empty) { fl("ray missed", say()); continue; }
        if (std::abs(lo) > S or std::abs(hi) > S) { fl("ray unbounded", say()); continue; }
        // both ends on the surface, and nothing but surface between them and the true ends
        for (int e = 0; e < 2; ++e) { R x = e ? hi : lo, y = e ? h.hi : h.lo; if (not(g(x) <= tol) or not((e ? x >= y : x <= y) or g((x + y) / 2) >= -tol)) { fl("ray end", say()); break; } }
    }
    if (mc::part("support")) {
        if constexpr (CAPS & SUP) for (auto& d : l.dirs) { mc::trace(); mc::step(); Vec<T, N> q_ = s.convex_support(v_<N>(times<N>(d, DK))); A<N> q = a_<N>(q_); if (not finite<N>(q) or not(t.g(q) <= TOL * 10) or not(std::abs(dot(q, d) - t.h(d)) <= TOL * 10)) fl("support", mc::str(name, " along ", lat::show(d), ": support point ", lat::show(q), " signed distance ", t.g(q), ", reaches ", dot(q, d), " expected ", t.h(d))); }
        if constexpr (CAPS & BND) { mc::trace(); mc::step(); Rect<T, N> b = s.bounds(); for (int i = 0; i < N; ++i) { A<N> e{}, f{}; e[i] = 1; f[i] = -1; R hi = t.h(e), lo = -t.h(f), bl = b.lo[i], bh = b.hi[i]; if (not(std::abs(bl - lo) <= TOL * 10) or not(std::abs(bh - hi) <= TOL * 10)) fl("bounds", mc::str(name, " axis ", i, ": bounds [", bl, ", ", bh, "] expected [", lo, ", ", hi, "]")); } }
    }
}
template <int N> static std::vector<A<N>> tup(std::vector<R> v) { std::vector<A<N>> o; lat::tuples<N, R>(v, [&](const A<N>& a) { o.push_back(a); }); return o; }
template <int N> static void basic() {
    for (R r : {0.5L, 1.0L, 2.0L}) for (auto& c : tup<N>(N < 4 ? std::vector<R>{0, -1, 0.5L} : std::vector<R>{0, 1})) check<ALL, N>(mc::str("sphere ", lat::show(c), " r ", r), Sphere<T, N>(v_<N>(c), (T)r), tr::sphere<N>(c, r), true);
    check<ALL, N>("default sphere", Sphere<T, N>(), tr::sphere<N>(A<N>{}, 1), true); check<ALL, N>("sphere(2)", Sphere<T, N>((T)2), tr::sphere<N>(A<N>{}, 2), true);
    std::vector<std::pair<A<N>, A<N>>> boxes; for (auto& lo : tup<N>(N == 2 ? std::vector<R>{-1, 0, 0.5L} : std::vector<R>{-1, 0.5L})) for (R w : {0.5L, 1.0L, 2.0L}) { A<N> hi; for (int i = 0; i < N; ++i) hi[i] = lo[i] + w * (i % 2 ? 0.5L : 1); boxes.push_back({lo, hi}); }
    for (auto& [lo, hi] : boxes) check<ALL, N>(mc::str("box ", lat::show(lo), lat::show(hi)), Rect<T, N>(v_<N>(lo), v_<N>(hi)), tr::box<N>(lo, hi), true);
    // segments
    std::vector<A<N>> ends; for (auto& a : tup<N>({-1, 0, 1})) if (N < 4 or dot(a, a) <= (N == 4 ? 2 : 1) or dot(a, a) == 5) ends.push_back(a);
    for (auto& a : tup<N>(N == 2 ? std::vector<R>{0, -1, 0.5L} : N == 5 ? std::vector<R>{0.5L} : std::vector<R>{0, 0.5L})) for (auto& u : ends) for (R r : {0.5L, 1.0L}) {
        if (N == 4 and r == 1) continue; A<N> b = lin(a, 1, u); R uu = dot(u, u); std::string n = mc::str(lat::show(a), lat::show(b), " r ", r); bool ex = uu == 1 or uu == 0;
        check<ALL & ~(RAY | (0)), N>("capsule " + n, Capsule<T, N>(v_<N>(a), v_<N>(b), (T)r), tr::capsule<N>(a, b, r), ex);
        if (uu > 0) check<ALL, N>("cylinder " + n, Cylinder<T, N>(v_<N>(a), v_<N>(b), (T)r), tr::cylinder<N>(a, b, r), ex);
    }
    { A<N> a{}, b{}; a[0] = -1; b[0] = 1; check<ALL & ~RAY, N>("default capsule", Capsule<T, N>(), tr::capsule<N>(a, b, 1), true); A<N> z{}; check<ALL, N>("default cylinder", Cylinder<T, N>(), tr::cylinder<N>(z, b, 1), true); check<ALL, N>("cylinder(0.5)", Cylinder<T, N>((T)0.5), tr::cylinder<N>(z, b, 0.5L), true); }
}
template <int N> static void derived() {
    A<N> c{}, lo, hi; c[0] = 0.5L; for (int i = 0; i < N; ++i) { lo[i] = i % 2 ? -1 : -0.5L; hi[i] = i % 2 ? 0 : 1; } A<N> a{}, b{}; a[0] = -0.5L; b[1] = 1;
    Rect<T, N> bx(v_<N>(lo), v_<N>(hi)); Sphere<T, N> sp(v_<N>(c), 1); Capsule<T, N> ca(v_<N>(a), v_<N>(b), (T)0.5); Cylinder<T, N> cy(v_<N>(a), v_<N>(b), (T)0.75);
    auto tb = tr::box<N>(lo, hi); auto ts = tr::sphere<N>(c, 1); auto tca = tr::capsule<N>(a, b, 0.5L); auto tcy = tr::cylinder<N>(a, b, 0.75L);
    // dilated
    for (R e : {0.0L, 0.5L, 1.0L}) {
        auto nm = [&](const char* s) { return mc::str(s, " dilated by ", e); };
        check<ALL & ~RAY, N>(nm("box"), Dilated<Rect<T, N>>(bx, (T)e), tr::dilated<N>(tb, e), true);
        check<ALL & ~RAY, N>(nm("wrapped sphere"), Dilated<Sphere<T, N>>(sp, (T)e), tr::dilated<N>(ts, e), true);
        check<ALL & ~RAY, N>(nm("capsule"), Dilated<Capsule<T, N>>(ca, (T)e), tr::dilated<N>(tca, e), false);
        check<ALL & ~RAY, N>(nm("cylinder"), Dilated<Cylinder<T, N>>(cy, (T)e), tr::dilated<N>(tcy, e), false);
        check<ALL & ~RAY, N>(nm("dilate(box)"), dilate(bx, (T)e), tr::dilated<N>(tb, e), true);
        check<ALL, N>(nm("dilate(sphere)"), dilate(sp, (T)e), tr::dilated<N>(ts, e), true);
        check<ALL & ~RAY, N>(nm("dilate(dilated box)"), dilate(Dilated<Rect<T, N>>(bx, (T)0.5), (T)e), tr::dilated<N>(tb, e + 0.5L), true);
    }
    check<ALL & ~RAY, N>("wrapped box", Dilated<Rect<T, N>>(bx), tb, true);
    for (R r : {0.25L, 0.5L}) { A<N> l2 = lo, h2 = hi; for (int i = 0; i < N; ++i) { l2[i] += r; h2[i] -= r; } check<ALL & ~RAY, N>(mc::str("rounded box, radius ", r), roundrect(bx, (T)r), tr::dilated<N>(tr::box<N>(l2, h2), r), true); }
    { A<N> l2 = lo, h2 = hi; for (int i = 0; i < N; ++i) { l2[i] += 0.5L; h2[i] -= 0.5L; } check<ALL & ~RAY, N>("rounded box, radius limited", roundrect(bx, (T)5), tr::dilated<N>(tr::box<N>(l2, h2), 0.5L), true); }
    // oriented
    for (auto& x : transforms<N>()) {
        check<CON | RAY | SUP | BND, N>("oriented box, " + x.name, x.xf * bx, tr::moved<N>(tb, x.M, x.t), false);
        check<CON | RAY | SUP | BND, N>("oriented sphere, " + x.name, x.xf * sp, tr::moved<N>(ts, x.M, x.t), false);
        check<CON | RAY | SUP | BND, N>("oriented cylinder, " + x.name, x.xf * cy, tr::moved<N>(tcy, x.M, x.t), false);
        check<CON | SUP | BND, N>("oriented capsule, " + x.name, x.xf * ca, tr::moved<N>(tca, x.M, x.t), false);
        check<CON | SUP | BND, N>("oriented dilated box, " + x.name, x.xf * Dilated<Rect<T, N>>(bx, (T)0.5), tr::moved<N>(tr::dilated<N>(tb, 0.5L), x.M, x.t), false);
        auto again = translation(v_<N>(c)) * (x.xf * bx); auto M = x.M; check<CON | RAY | SUP | BND, N>("twice oriented box, " + x.name, again, tr::moved<N>(tb, M, lin(x.t, 1, c)), false);
    }
    // extruded and frusta over this base
    for (auto [h0, h1] : std::vector<std::pair<R, R>>{{0, 1}, {-1, 0.5L}, {-0.5L, -0.25L}, {2, 1}}) {
        R hl = std::min(h0, h1), hh = std::max(h0, h1); auto nm = [&](const char* s) { return mc::str(s, " [", h0, ", ", h1, "]"); };
        if constexpr (N < 5) {
            check<ALL, N + 1>(nm("extruded box"), extrude(bx, (T)h0, (T)h1), tr::extruded<N>(tb, hl, hh), true);
            check<ALL, N + 1>(nm("extruded sphere"), extrude(sp, (T)h0, (T)h1), tr::extruded<N>(ts, hl, hh), true);
            check<ALL, N + 1>(nm("extruded cylinder"), extrude(cy, (T)h0, (T)h1), tr::extruded<N>(tcy, hl, hh), false);
            check<ALL & ~RAY, N + 1>(nm("extruded capsule"), extrude(ca, (T)h0, (T)h1), tr::extruded<N>(tca, hl, hh), false);
            R fl = hl, fh = hh; if (fl < 0 and fh > 0) fl = 0;
            check<CON | RAY | SUP | BND, N + 1>(nm("frustum of box"), frustum(bx, (T)h0, (T)h1), tr::frustum<N>(tb, fl, fh), true);
            check<CON | RAY | SUP | BND, N + 1>(nm("frustum of sphere"), frustum(sp, (T)h0, (T)h1), tr::frustum<N>(ts, fl, fh), false);
            check<CON | RAY | SUP | BND, N + 1>(nm("frustum of cylinder"), frustum(cy, (T)h0, (T)h1), tr::frustum<N>(tcy, fl, fh), false);
            check<CON | SUP | BND, N + 1>(nm("frustum of capsule"), frustum(ca, (T)h0, (T)h1), tr::frustum<N>(tca, fl, fh), false);
            if constexpr (N == 2) for (auto& x : transforms<N + 1>()) {
                check<CON | RAY | SUP | BND, N + 1>(nm("view frustum") + " " + x.name, ViewFrustum<T, N + 1>(frustum(bx, (T)h0, (T)h1), x.xf), tr::moved<N + 1>(tr::frustum<N>(tb, fl, fh), x.M, x.t), false);
                check<CON | RAY | SUP | BND, N + 1>(nm("oriented extrusion") + " " + x.name, x.xf * extrude(sp, (T)h0, (T)h1), tr::moved<N + 1>(tr::extruded<N>(ts, hl, hh), x.M, x.t), false);
            }
        }
    }
}
/// proportions and scales far from one: thin, flat, tiny and huge shapes, long and short directions
template <int N> static void extremes() {
    struct Rg { R sc, dk; }; std::vector<Rg> rgs{{1, 1}, {ldexpl(1, -12), 1}, {ldexpl(1, 12), 1}, {1, ldexpl(1, -12)}, {1, ldexpl(1, 12)}};
    for (auto [k, dk] : rgs) { regime(k, dk); auto at = [&](A<N> a) { return times<N>(a, k); }; std::string g = mc::str(" at scale ", k, ", directions ", dk);
        std::vector<A<N>> us; A<N> u{}; u[0] = 1; us.push_back(u); u = A<N>{}; u[N - 1] = -1; us.push_back(u); u = A<N>{}; u[0] = u[1] = 1; us.push_back(u); if (N > 2) { u[2] = 0.5L; us.push_back(u); }
        A<N> c{}; c[0] = 0.5L; c[N - 1] = -0.25L;
        for (auto& u : us) for (R ln : {0.125L, 3.0L}) for (R r : {0.125L, 2.0L}) { A<N> a = at(c), b = at(lin(c, ln, u)); bool ex = dot(u, u) == 1; std::string n = mc::str(lat::show(a), lat::show(b), " r ", r * k, g);
            check<ALL & ~RAY, N>("capsule " + n, Capsule<T, N>(v_<N>(a), v_<N>(b), (T)(r * k)), tr::capsule<N>(a, b, r * k), ex); check<ALL, N>("cylinder " + n, Cylinder<T, N>(v_<N>(a), v_<N>(b), (T)(r * k)), tr::cylinder<N>(a, b, r * k), ex);
        }
        for (R r : {0.125L, 3.0L}) check<ALL, N>(mc::str("sphere r ", r * k, g), Sphere<T, N>(v_<N>(at(c)), (T)(r * k)), tr::sphere<N>(at(c), r * k), true);
        A<N> lo, hi; 
        for (int e = 0; e < 4; ++e) { for (int i = 0; i < N; ++i) { R w = (e == 0 ? i == 0 : e == 1 ? i != 0 : e == 2) ? 0.125L : 3; if (e == 3) w = i == 1 ? 0 : 1; lo[i] = k * (i % 2 ? -0.5L : -0.25L * w); hi[i] = lo[i] + k * w; } check<ALL, N>(mc::str("box ", lat::show(lo), lat::show(hi), g), Rect<T, N>(v_<N>(lo), v_<N>(hi)), tr::box<N>(lo, hi), true); }
        // bases of the derived shapes
        A<N> bl, bh; for (int i = 0; i < N; ++i) { bl[i] = k * (i % 2 ? -1 : -0.5L); bh[i] = k * (i % 2 ? 0 : 1); } A<N> a{}, b{}; a[0] = -0.5L * k; b[1] = k;
        Rect<T, N> bx(v_<N>(bl), v_<N>(bh)); Sphere<T, N> sp(v_<N>(at(c)), (T)k); Capsule<T, N> ca(v_<N>(a), v_<N>(b), (T)(0.5L * k)); Cylinder<T, N> cy(v_<N>(a), v_<N>(b), (T)(0.75L * k));
        auto tb = tr::box<N>(bl, bh); auto ts = tr::sphere<N>(at(c), k); auto tca = tr::capsule<N>(a, b, 0.5L * k); auto tcy = tr::cylinder<N>(a, b, 0.75L * k);
        for (R e : {0.125L, 3.0L}) { auto nm = [&](const char* s) { return mc::str(s, " dilated by ", e * k, g); };
            check<ALL & ~RAY, N>(nm("box"), Dilated<Rect<T, N>>(bx, (T)(e * k)), tr::dilated<N>(tb, e * k), true); check<ALL & ~RAY, N>(nm("cylinder"), Dilated<Cylinder<T, N>>(cy, (T)(e * k)), tr::dilated<N>(tcy, e * k), false);
            check<ALL & ~RAY, N>(nm("capsule"), Dilated<Capsule<T, N>>(ca, (T)(e * k)), tr::dilated<N>(tca, e * k), false); check<ALL & ~RAY, N>(nm("wrapped sphere"), Dilated<Sphere<T, N>>(sp, (T)(e * k)), tr::dilated<N>(ts, e * k), true);
            check<ALL, N>(nm("dilate(sphere)"), dilate(sp, (T)(e * k)), tr::dilated<N>(ts, e * k), true); check<ALL & ~RAY, N>(nm("dilate(capsule)"), dilate(ca, (T)(e * k)), tr::dilated<N>(tca, e * k), false); }
        for (int m = 0; m < 3; ++m) { std::array<A<N>, N> M{}; A<N> t{}; for (int i = 0; i < N; ++i) { M[i][i] = m == 0 ? 4 : m == 1 ? 0.25L : i % 2 ? 4 : 0.25L; t[i] = k * (i % 2 ? -0.5L : 1); } if (m == 2) M[0][1] = 2;
            SimpleMatrix<T, N, N> mm; for (int i = 0; i < N; ++i) for (int j = 0; j < N; ++j) mm(i, j) = (T)M[i][j]; auto xf = translation(v_<N>(t)) * transformation(mm); auto nm = [&](const char* s) { return mc::str("oriented ", s, " map ", m, g); };
            check<CON | RAY | SUP | BND, N>(nm("box"), xf * bx, tr::moved<N>(tb, M, t), false); check<CON | RAY | SUP | BND, N>(nm("sphere"), xf * sp, tr::moved<N>(ts, M, t), false);
            check<CON | RAY | SUP | BND, N>(nm("cylinder"), xf * cy, tr::moved<N>(tcy, M, t), false); check<CON | SUP | BND, N>(nm("capsule"), xf * ca, tr::moved<N>(tca, M, t), false); }
        if constexpr (N < 5) {
            for (auto [h0, h1] : std::vector<std::pair<R, R>>{{0.25L, 0.375L}, {-3, 3}}) { R l = h0 * k, h = h1 * k; auto nm = [&](const char* s) { return mc::str(s, " [", l, ", ", h, "]", g); };
                check<ALL, N + 1>(nm("extruded box"), extrude(bx, (T)l, (T)h), tr::extruded<N>(tb, l, h), true); check<ALL, N + 1>(nm("extruded sphere"), extrude(sp, (T)l, (T)h), tr::extruded<N>(ts, l, h), true);
                check<ALL, N + 1>(nm("extruded cylinder"), extrude(cy, (T)l, (T)h), tr::extruded<N>(tcy, l, h), false); check<ALL & ~RAY, N + 1>(nm("extruded capsule"), extrude(ca, (T)l, (T)h), tr::extruded<N>(tca, l, h), false); }
            if (k == 1) for (auto [l, h] : std::vector<std::pair<R, R>>{{0.125L, 0.25L}, {1.5L, 3}, {-3, -0.125L}, {0, 3}, {-2, 0}, {-0.125L, 3}, {-3, 0.25L}}) { R z = l < 0 and h > 0 ? 0 : l; auto nm = [&](const char* s) { return mc::str(s, " [", l, ", ", h, "]", g); };
                check<CON | RAY | SUP | BND, N + 1>(nm("frustum of box"), frustum(bx, (T)l, (T)h), tr::frustum<N>(tb, z, h), false); check<CON | RAY | SUP | BND, N + 1>(nm("frustum of sphere"), frustum(sp, (T)l, (T)h), tr::frustum<N>(ts, z, h), false);
                check<CON | RAY | SUP | BND, N + 1>(nm("frustum of cylinder"), frustum(cy, (T)l, (T)h), tr::frustum<N>(tcy, z, h), false); check<CON | SUP | BND, N + 1>(nm("frustum of capsule"), frustum(ca, (T)l, (T)h), tr::frustum<N>(tca, z, h), false); }
        }
    }
    regime(1, 1);
}
void mc_run() { IDX = 0; mc::bound("element type", sizeof(T) == 8 ? "double" : "float");
#if MCP == 2
    basic<2>(); derived<2>(); extremes<2>();
#elif MCP == 3
    basic<3>(); derived<3>(); extremes<3>();
#elif MCP == 5
    basic<5>(); derived<5>(); extremes<5>();
#else
    basic<4>(); derived<4>(); extremes<4>();
#endif
}
