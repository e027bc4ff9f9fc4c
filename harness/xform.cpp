// C25: histories of transforms and dilations applied to shapes, against the image of the point set.
#include "truth.h"
#include <geomc/linalg/Vec.h>
#include <geomc/linalg/Ray.h>
#include <geomc/linalg/AffineTransform.h>
#include <geomc/shape/Rect.h>
#include <geomc/shape/Sphere.h>
#include <geomc/shape/Capsule.h>
#include <geomc/shape/Cylinder.h>
#include <geomc/shape/Simplex.h>
#include <geomc/shape/Extruded.h>
#include <geomc/shape/Frustum.h>
#include <geomc/shape/Oriented.h>
#include <geomc/shape/Plane.h>
#include <geomc/shape/Dilated.h>
using namespace geom;
using tr::R; using tr::A; using tr::Solid; using tr::lin; using tr::dot; using tr::len;
#ifndef ET
#define ET double
#endif
typedef ET T;
static constexpr int M = MCP;
static uint64_t IDX;
static const R TOL = sizeof(T) == 8 ? 1e-10L : 3e-4L;
static T SC = 1; // unit of length: every shape, point and translation is scaled by it
#define XF_SCALE SC
#include "moves.h"
typedef A<M> P_; typedef std::array<P_, M> Mat;
static Vec<T, M> v(const P_& a) { return v_<M>(a); }
static Vec<T, M> pt(const P_& a) { return v_<M>(a) * SC; }
static P_ un(const Vec<T, M>& x) { P_ a; for (int i = 0; i < M; ++i) a[i] = (R)x[i] / SC; return a; }
struct Map { Mat L; P_ t; };
static P_ act(const Mat& L, const P_& p) { P_ o{}; for (int i = 0; i < M; ++i) for (int j = 0; j < M; ++j) o[i] += L[i][j] * p[j]; return o; }
static Map after(const Map& a, const Map& b) { Map o{}; for (int i = 0; i < M; ++i) for (int j = 0; j < M; ++j) for (int k = 0; k < M; ++k) o.L[i][j] += a.L[i][k] * b.L[k][j]; o.t = lin(act(a.L, b.t), 1, a.t); return o; }
static R determinant(Mat W) { R d = 1; for (int c = 0; c < M; ++c) { int p = c; for (int r = c; r < M; ++r) if (std::abs(W[r][c]) > std::abs(W[p][c])) p = r; if (p != c) { std::swap(W[p], W[c]); d = -d; } d *= W[c][c]; if (W[c][c] == 0) return 0; for (int r = c + 1; r < M; ++r) { R f = W[r][c] / W[c][c]; for (int j = c; j < M; ++j) W[r][j] -= f * W[c][j]; } } return d; }
static Map inverse(const Map& m) {
    Mat W = m.L, I{}; for (int i = 0; i < M; ++i) I[i][i] = 1;
    for (int c = 0; c < M; ++c) { int p = c; for (int r = c; r < M; ++r) if (std::abs(W[r][c]) > std::abs(W[p][c])) p = r; std::swap(W[c], W[p]); std::swap(I[c], I[p]); R k = W[c][c]; for (int j = 0; j < M; ++j) { W[c][j] /= k; I[c][j] /= k; } for (int r = 0; r < M; ++r) if (r != c) { R f = W[r][c]; for (int j = 0; j < M; ++j) { W[r][j] -= f * W[c][j]; I[r][j] -= f * I[c][j]; } } }
    Map o{I, {}}; P_ t = act(I, m.t); for (auto& x : t) x = -x; o.t = t; return o;
}
template <int K> static std::vector<A<K>> tup(std::vector<R> c) { std::vector<A<K>> o; lat::tuples<K, R>(c, [&](const A<K>& a) { o.push_back(a); }); return o; }
static std::vector<P_> PTS, DIRS, RO, RD; static std::string ctx;
enum { RAY = 1 };
static R size_(const Map& m) { R s = 1; for (auto& r : m.L) s = std::max(s, len(r)); return s; }
template <unsigned CAPS, typename O> static void verify(const O& o, const Solid<M>& t, const Map& m) {
    Map inv = inverse(m); R sc = size_(m) * size_(inv), tol = TOL * sc * 4;
    auto g = [&](const P_& p) { return t.g(lin(act(inv.L, p), 1, inv.t)); };
    auto h = [&](const P_& d) { P_ e{}; for (int i = 0; i < M; ++i) for (int j = 0; j < M; ++j) e[j] += m.L[i][j] * d[i]; return t.h(e) + dot(m.t, d); };
    mc::state(); mc::trace();
    // query points: the lattice, and its image (so that enough of them fall inside)
    for (int im = 0; im < 2; ++im) for (auto& q : PTS) { P_ p = im ? lin(act(m.L, q), 1, m.t) : q; mc::step(); R d = g(p); if (std::abs(d) <= tol) continue; if (o.contains(pt(p)) != (d < 0)) { mc::fail("contains", mc::str(ctx, ": ", lat::show(p), " says ", d > 0)); return; } }
    for (auto& d : DIRS) { mc::step(); P_ s = un(o.convex_support(v(d))); R want = h(d); if (not(g(s) <= tol * 4) or not(std::abs(dot(s, d) - want) <= tol * 10)) { mc::fail("support", mc::str(ctx, ": toward ", lat::show(d), " is ", lat::show(s), " reaching ", dot(s, d), " not ", want)); return; } }
    Rect<T, M> b = o.bounds(); for (int i = 0; i < M; ++i) { P_ e{}, f{}; e[i] = 1; f[i] = -1; if (not(std::abs(b.hi[i] / (R)SC - h(e)) <= tol * 10) or not(std::abs(b.lo[i] / (R)SC + h(f)) <= tol * 10)) { mc::fail("bounds", mc::str(ctx, ": axis ", i, " [", (R)b.lo[i] / SC, ", ", (R)b.hi[i] / SC, "] expected [", -h(f), ", ", h(e), "]")); return; } }
    if constexpr (CAPS & RAY) for (auto& q : RO) for (auto& d : RD) {
        // the ray and its image correspond parameter by parameter
        P_ p = lin(act(m.L, q), 1, m.t), e = act(m.L, d); tr::Hit<M> w = tr::trace<M>(t, q, d, -30, 30); mc::step();
        Rect<T, 1> iv = o.intersect(Ray<T, M>(pt(p), v(e) * SC)); bool hit = iv.lo <= iv.hi; R rt = tol * 100;
        if (w.min > rt and hit) { mc::fail("ray", mc::str(ctx, ": a ray which misses by ", w.min, " hits")); return; }
        if (w.min < -rt) { auto gp = [&](R x) { return t.g(lin(q, x, d)); }; if (not hit or not(std::abs(gp(iv.lo)) <= rt) or not(std::abs(gp(iv.hi)) <= rt) or not(std::abs(iv.lo - w.lo) <= 1e-2L) or not(std::abs(iv.hi - w.hi) <= 1e-2L)) { mc::fail("ray", mc::str(ctx, ": ray from ", lat::show(p), " along ", lat::show(e), " gives [", (R)iv.lo, ", ", (R)iv.hi, "] expected [", w.lo, ", ", w.hi, "]")); return; } }
    }
}
struct Op { Map m; AffineTransform<T, M> xf; std::string name; };
template <unsigned CAPS, typename S> static void histories(const char* what, const S& s, const Solid<M>& t, const Solid<M>& box, const std::vector<Op>& ops, int depth) {
    typedef Oriented<S> O; int nk = 4 * (int)ops.size(); size_t total = 1; for (int i = 0; i < depth; ++i) total *= nk;
    static_assert(implements_shape_concept<O, Convex>::value == implements_shape_concept<S, Convex>::value);
    if (implements_shape_concept<O, RayIntersectable>::value != implements_shape_concept<S, RayIntersectable>::value) mc::fail("traits", what);
    Map id{}; for (int i = 0; i < M; ++i) id.L[i][i] = 1;
    for (size_t h = 0; h < total; ++h) {
        if (not mc::begin(what, IDX++)) continue;
        size_t x = h; Map m = id; O o; bool made = false; ctx = what; bool wild = false;
        if (h == 0) { ctx = mc::str(what, " unmoved"); verify<CAPS>(O(s), t, m); ctx = what; }
        for (int k = 0; k < depth; ++k) {
            int c = x % nk; x /= nk; const Op& op = ops[c / 4]; int kind = c % 4; bool fwd = kind % 2 == 0;
            ctx += mc::str(fwd ? " * " : " / ", op.name, kind >= 2 ? "=" : ""); m = after(fwd ? op.m : inverse(op.m), m);
            if (not made) { if (kind == 0) o = op.xf * s; else if (kind == 1) o = s / op.xf; else { o = O(s); if (kind == 2) o *= op.xf; else o /= op.xf; } made = true; }
            else if (kind == 0) o = op.xf * o; else if (kind == 1) o = o / op.xf; else if (kind == 2) o *= op.xf; else o /= op.xf;
        }
        if (CAPS and h % 7 == 0) { std::string c0 = ctx; ctx += ", moved by its own transform"; O a = o; a *= a.xf; verify<0>(a, t, after(m, m)); a = o; a /= a.xf; verify<0>(a, t, id); ctx = c0; }
        verify<CAPS>(o, t, m);
        MC_CHECK((o == O(o.shape, o.xf) and O(s, o.xf) == o), "equality", ctx); MC_CHECK((geom::hash<O, size_t>(o) == geom::hash<O, size_t>(O(s, o.xf))), "hash", ctx);
        { std::string c0 = ctx; ctx += ", oriented bounds"; verify<0>(o.oriented_bounds(), box, m); R vol = 1; { Rect<T, M> b = s.bounds(); for (int i = 0; i < M; ++i) vol *= (R)b.hi[i] - b.lo[i]; } R want = vol * std::abs(determinant(m.L)), got = o.oriented_bounds().volume(); for (int i = 0; i < M; ++i) want /= SC, got /= SC; if (not(std::abs(got - want) <= (sizeof(T) == 8 ? 1e-10L : 1e-3L) * std::max<R>(1, want))) mc::fail("volume", mc::str(ctx, ": volume ", got, " expected ", want)); ctx = c0; }
    }
}
static void simplexes(const std::vector<Op>& ops, int depth) {
    std::vector<P_> w; P_ z{}; w.push_back(z); for (int i = 0; i < M; ++i) { P_ e{}; e[i] = i + 1; e[(i + 1) % M] = -0.5L; w.push_back(e); }
    int nk = 2 * (int)ops.size(); size_t total = 1; for (int i = 0; i < depth; ++i) total *= nk;
    for (int n = 0; n <= M + 1; ++n) for (size_t h = 0; h < total; ++h) {
        if (not mc::begin("simplex", IDX++)) continue;
        mc::state(); mc::trace(); Simplex<T, M> s; for (int i = 0; i < n; ++i) s.insert(pt(w[i])); size_t x = h; ctx = mc::str(n, " vertices"); Map m{}; for (int i = 0; i < M; ++i) m.L[i][i] = 1;
        for (int k = 0; k < depth; ++k) { int c = x % nk; x /= nk; const Op& op = ops[c / 2]; ctx += mc::str(c % 2 ? " / " : " * ", op.name); m = after(c % 2 ? inverse(op.m) : op.m, m); auto& r = c % 2 ? (s /= op.xf) : (s *= op.xf); MC_CHECK(&r == &s, "simplex reference", ctx); mc::step(); }
        bool ok = s.n == n; for (int i = 0; ok and i < n; ++i) ok = len(lin(un(s.pts[i]), -1, lin(act(m.L, w[i]), 1, m.t))) <= TOL * 10 * size_(m); if (not ok) mc::fail("simplex", ctx);
    }
}
/// histories of dilations (also of oriented and already dilated shapes)
template <typename D> static void grown(const D& d, const Solid<M>& t, R e) {
    mc::state(); mc::trace();
    for (auto& p : PTS) { mc::step(); R g = t.g(p) - e; Vec<T, M> q = pt(p); if (not(std::abs(d.sdf(q) / (R)SC - g) <= TOL * 10)) { mc::fail("dilated sdf", mc::str(ctx, ": at ", lat::show(p), " is ", (R)d.sdf(q), " expected ", g)); return; } if (std::abs(g) > TOL * 10 and d.contains(q) != (g < 0)) { mc::fail("dilated contains", mc::str(ctx, ": ", lat::show(p), " at ", g)); return; } }
}
template <typename D> static void reach(const D& d, const Solid<M>& t, R e) {
    for (auto& u : DIRS) { mc::step(); R got = dot(un(d.convex_support(v(u))), u), want = t.h(u) + e * len(u); if (not(std::abs(got - want) <= TOL * 40)) { mc::fail("dilated support", mc::str(ctx, ": toward ", lat::show(u), " reaches ", got, " expected ", want)); return; } }
    Rect<T, M> b = d.bounds(); for (int i = 0; i < M; ++i) { P_ u{}, n{}; u[i] = 1; n[i] = -1; if (not(std::abs(b.hi[i] / (R)SC - t.h(u) - e) <= TOL * 40) or not(std::abs(b.lo[i] / (R)SC + t.h(n) + e) <= TOL * 40)) { mc::fail("dilated bounds", ctx); return; } }
}
template <typename S> static void dilations(const char* what, const S& s, const Solid<M>& t, R floor, int depth) {
    const std::vector<R> es{0, 0.25L, 1, -0.5L, -2}; size_t total = 1; for (int i = 0; i < depth; ++i) total *= es.size();
    for (size_t h = 0; h < total; ++h) {
        if (not mc::begin(what, IDX++)) continue;
        size_t x = h; R e = 0; ctx = what; auto d = dilate(s, (T)es[x % 5] * SC);
        for (int k = 0; k < depth; ++k) { R st = es[x % 5]; x /= 5; ctx += mc::str(" dilated by ", st); e = std::max(floor, e + st); if (k) d = dilate(d, (T)st * SC); }
        grown(d, t, e); reach(d, t, e);
        auto c = d; MC_CHECK((c == d and geom::hash<decltype(d), size_t>(c) == geom::hash<decltype(d), size_t>(d)), "hash", ctx);
    }
}
static void all(int depth, int dd) {
    PTS.clear(); DIRS.clear(); RO.clear(); RD.clear();
    PTS = tup<M>(M == 2 ? std::vector<R>{-2, -0.75L, 0, 0.375L, 1.5L} : M == 3 ? std::vector<R>{-0.75L, 0.375L, 1.5L} : std::vector<R>{-0.25L, 0.75L}); DIRS = tup<M>(M == 2 ? std::vector<R>{-1, 0.5L} : std::vector<R>{-1, 0.5L}); { P_ e{}; e[0] = 1; DIRS.push_back(e); e[0] = 0; e[M - 1] = -1; DIRS.push_back(e); }
    { P_ o{}; o[0] = -3; o[1] = 0.125L; RO.push_back(o); o[0] = 0.25L; o[M - 1] = 2; RO.push_back(o); P_ d{}; d[0] = 1; d[1] = 0.0625L; RD.push_back(d); P_ e{}; e[0] = -0.125L; e[M - 1] = -1; RD.push_back(e); }
    std::vector<Op> ops; for (auto& x : transforms<M>()) if (x.name != "identity" and x.name != "quarter turn") ops.push_back({{x.M, x.t}, x.xf, x.name});
    if (SC != 1) { Map st{}; Vec<T, M> k; for (int i = 0; i < M; ++i) { k[i] = (T)(i == 0 ? 64 : i == M - 1 ? 0.03125L : 1); st.L[i][i] = k[i]; } ops.push_back({st, scale(k), "strong stretch"}); }
    P_ lo, hi, c{}, a{}, b{}; for (int i = 0; i < M; ++i) { lo[i] = i % 2 ? -1 : -0.5L; hi[i] = i % 2 ? 0.25L : 1; } c[0] = 0.5L; a[0] = -0.5L; b[1] = 1;
    auto tb = tr::box<M>(lo, hi);
    auto boxof = [&](const auto& s) { auto r = s.bounds(); P_ l, h; for (int i = 0; i < M; ++i) { l[i] = (R)r.lo[i] / SC; h[i] = (R)r.hi[i] / SC; } return tr::box<M>(l, h); };
    Rect<T, M> bx(pt(lo), pt(hi)); Sphere<T, M> sp(pt(c), (T)0.75 * SC); Capsule<T, M> ca(pt(a), pt(b), (T)0.5 * SC); Cylinder<T, M> cy(pt(a), pt(b), (T)0.75 * SC);
    auto tsp = tr::sphere<M>(c, 0.75L); auto tca = tr::capsule<M>(a, b, 0.5L); auto tcy = tr::cylinder<M>(a, b, 0.75L);
    histories<RAY>("box", bx, tb, tb, ops, depth); histories<RAY>("ball", sp, tsp, boxof(sp), ops, depth); histories<0>("capsule", ca, tca, boxof(ca), ops, depth); histories<RAY>("cylinder", cy, tcy, boxof(cy), ops, depth);
    Dilated<Rect<T, M>> db(bx, (T)0.5 * SC); histories<0>("rounded box", db, tr::dilated<M>(tb, 0.5L), boxof(db), ops, depth);
#if MCP == 3
    if (SC == 1) { Rect<T, 2> b2(Vec<T, 2>((T)-0.5, (T)-1), Vec<T, 2>((T)1, (T)0.5)); auto t2 = tr::box<2>({-0.5L, -1}, {1, 0.5L}); auto ex = extrude(b2, (T)-0.5, (T)1); histories<RAY>("extrusion", ex, tr::extruded<2>(t2, -0.5L, 1), boxof(ex), ops, 2); auto fr = frustum(b2, (T)0.5, (T)1.5); histories<RAY>("frustum", fr, tr::frustum<2>(t2, 0.5L, 1.5L), boxof(fr), ops, 2); }
#endif
    simplexes(ops, depth);
    dilations("box dilations", bx, tb, 0, dd); dilations("ball dilations", sp, tsp, -0.75L, dd); dilations("capsule dilations", ca, tca, 0, dd); dilations("cylinder dilations", cy, tcy, 0, dd); dilations("rounded dilations", db, tr::dilated<M>(tb, 0.5L), -0.5L, dd);
    // dilating an oriented shape thickens its image
    for (auto& op : ops) for (R e : {0.0L, 0.5L, 2.0L}) { if (not mc::begin("oriented dilations", IDX++)) continue; mc::state(); ctx = mc::str("box * ", op.name, " dilated by ", e); auto mv = [&](const Solid<M>& s) { return tr::moved<M>(s, op.m.L, op.m.t); }; reach(dilate(op.xf * bx, (T)e * SC), mv(tb), e); reach(dilate(op.xf * sp, (T)e * SC), mv(tsp), e); reach(dilate(op.xf * ca, (T)e * SC), mv(tca), e); }
}
void mc_run() {
    IDX = 0; mc::bound("dimension", M); mc::bound("element type", sizeof(T) == 8 ? "double" : "float"); mc::bound("transforms", 6); mc::bound("history depth", mc::tier(3, 4)); mc::bound("units of length", "1, 2^-10, 2^10");
    SC = 1; all(mc::tier(3, 4), mc::tier(3, 4));
    for (int e : {-10, 10}) { SC = std::ldexp((T)1, e); all(mc::tier(1, 2), 2); } SC = 1;
}
