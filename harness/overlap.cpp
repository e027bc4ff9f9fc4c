// C22: convex overlap tests (GJK, separating axes, closed forms) against certified distances.
#include "hull.h"
#include <geomc/linalg/Vec.h>
#include <geomc/linalg/AffineTransform.h>
#include <geomc/shape/Rect.h>
#include <geomc/shape/Sphere.h>
#include <geomc/shape/Capsule.h>
#include <geomc/shape/Cylinder.h>
#include <geomc/shape/Simplex.h>
#include <geomc/shape/Dilated.h>
#include <geomc/shape/Extruded.h>
#include <geomc/shape/Frustum.h>
#include <geomc/shape/Oriented.h>
#include <geomc/shape/Intersect.h>
#include <variant>
using namespace geom;
using hull::R; using hull::A; using tr::lin; using tr::dot; using tr::len;
#ifndef ET
#define ET double
#endif
typedef ET T;
static uint64_t IDX;
static T SC = 1; // unit of length of the shapes given to the library
static bool UNEVEN; // give the oriented shapes units of their own, undone by their transform
#define XF_SCALE SC
#include "moves.h"
static constexpr int M = MCP;
typedef A<M> P_; typedef Vec<T, M> V_;
static V_ v(const P_& a) { return v_<M>(a) * SC; }
typedef std::function<P_(const P_&)> Sup;
// (one-dimensional bases are not supported by Extruded and Frustum)
typedef std::conditional_t<M == 2, Oriented<Capsule<T, M>>, Extruded<Sphere<T, (M > 2 ? M - 1 : 2)>>> Ext;
typedef std::conditional_t<M == 2, Oriented<Cylinder<T, M>>, Frustum<Rect<T, (M > 2 ? M - 1 : 2)>>> Fru;
typedef std::variant<Rect<T, M>, Oriented<Rect<T, M>>, Simplex<T, M>, Sphere<T, M>, Capsule<T, M>, Cylinder<T, M>, Dilated<Rect<T, M>>, Dilated<Simplex<T, M>>, Oriented<Sphere<T, M>>, Oriented<Simplex<T, M>>, Ext, Fru> Any;
struct Item { std::string name; Any s; Sup sup; bool flat; std::shared_ptr<AnyConvex<T, M>> ac; };
static P_ plus_(const P_& a, const P_& b) { return lin(a, 1, b); }
/// a point of the shapes one dimension down
static auto low(const A<M - 1>& a) { if constexpr (M == 2) return (T)a[0]; else return v_<M - 1>(a); }
static P_ unit(P_ d) { R l = len(d); if (l > 0) for (auto& x : d) x /= l; return d; }
static Sup pts(std::vector<P_> s) { return [s](const P_& d) { size_t b = 0; for (size_t i = 1; i < s.size(); ++i) if (dot(s[i], d) > dot(s[b], d)) b = i; return s[b]; }; }
static Sup ball(Sup s, R r) { return [=](const P_& d) { return lin(s(d), r, unit(d)); }; }
static std::vector<P_> corners(const P_& lo, const P_& hi) { std::vector<P_> o; for (int m = 0; m < 1 << M; ++m) { P_ p; for (int i = 0; i < M; ++i) p[i] = m >> i & 1 ? hi[i] : lo[i]; o.push_back(p); } return o; }
static Sup img(const AX<M>& x, Sup s) { return [=](const P_& d) { P_ e{}; for (int i = 0; i < M; ++i) for (int j = 0; j < M; ++j) e[j] += x.M[i][j] * d[i]; return image<M>(x, s(e)); }; }
static Sup cyl(P_ a, P_ b, R r) { P_ u = unit(lin(b, -1, a)); return [=](const P_& d) { R t = dot(u, d); P_ w = lin(d, -t, u); w = len(w) > 1e-14L * len(d) ? unit(w) : P_{}; return lin(t > 0 ? b : a, r, w); }; }

/// smallest-norm point of hull(s), replacing s by the face it lies on
static P_ least(std::vector<P_>& s) {
    P_ best{}; R bd = INFINITY; std::vector<P_> keep; std::vector<R> w; P_ o{};
    for (size_t m = 1; m < (size_t(1) << s.size()); ++m) {
        std::vector<P_> f; for (size_t i = 0; i < s.size(); ++i) if (m >> i & 1) f.push_back(s[i]);
        if (f.size() > M + 1 or not hull::coords<M>(f, o, w)) continue;
        R k = 1; bool in = true; for (R x : w) { k -= x; in = in and x > -1e-13L; } if (not in or k < -1e-13L) continue;
        P_ q = hull::at<M>(f, w); R l = len(q); if (l < bd - 1e-15L) { bd = l; best = q; keep = f; }
    }
    s = keep; return best;
}
struct Gap { R lo, up; P_ x{}; };
/// certified bounds on the distance between two convex sets given by their support points
static Gap gap(const Sup& a, const Sup& b, const P_& shift = {}, bool full = false) {
    auto sup = [&](const P_& d) { P_ m; for (int i = 0; i < M; ++i) m[i] = -d[i]; return plus_(lin(a(d), -1, b(m)), shift); };
    P_ e{}; e[0] = 1; std::vector<P_> s{sup(e)}; P_ x = s[0]; Gap g{0, len(x)};
    for (int it = 0; it < 400; ++it) {
        R l = len(x); if (l <= g.up) { g.up = l; g.x = x; } if (l < 1e-11L) { g.up = 0; g.lo = 0; return g; }
        P_ m; for (int i = 0; i < M; ++i) m[i] = -x[i] / l; P_ p = sup(m);
        R low = -dot(m, p); g.lo = std::max(g.lo, low); if (g.up - g.lo < 1e-10L or (g.lo > 0.05L and not full)) return g;
        bool dup = false; for (auto& q : s) dup = dup or len(lin(q, -1, p)) < 1e-13L; if (dup) return g;
        s.push_back(p); x = least(s); if (s.empty()) return g;
    }
    return g;
}
/// a shape carried along by a displacement
struct Slid: AnyConvex<T, M> { const AnyConvex<T, M>& s; V_ t; Slid(const AnyConvex<T, M>& s, V_ t): s(s), t(t) {} V_ _impl_convex_support(V_ d) const override { return s.convex_support(d) + t; } Rect<T, M> _impl_bounds() const override { Rect<T, M> b = s.bounds(); return {b.lo + t, b.hi + t}; } };
static std::vector<P_> frame() { std::vector<P_> o; P_ n{}; for (int k = 0; k < M; ++k) { P_ e{}; e[k] = 1; o.push_back(e); n[k] = -1; } o.push_back(n); return o; }
/// +1 overlapping with margin, -1 apart with margin, 0 undecided
static int truth(const Sup& a, const Sup& b, R m) {
    Gap g = gap(a, b); if (g.lo > m) return -1; if (g.up > 0) return 0;
    for (auto e : frame()) { for (auto& x : e) x *= m; if (gap(a, b, e).up > 0) return 0; }
    return 1;
}
static std::vector<Item> items() {
    std::vector<Item> o; bool deep = mc::thorough();
    auto put = [&](std::string n, Any s, Sup f, bool flat) { Item i{n, s, f, flat, {}}; std::visit([&](auto& sh) { typedef std::decay_t<decltype(sh)> S; i.ac = std::make_shared<AnyConvexImpl<S>>(sh); }, i.s); o.push_back(i); };
    auto at = [&](std::initializer_list<R> l) { P_ p{}; int i = 0; for (R x : l) if (i < M) p[i++] = x; return p; };
    std::vector<P_> ctr{at({0, 0, 0, 0}), at({1.5L, 0.25L, -0.5L, 0.5L, 0.25L}), at({-2, 1, 0.5L, 0, -0.5L}), at({0.25L, 2.5L, 1, -1, 0.75L})}; if (deep) { ctr.push_back(at({3, -3, 2, 1})); ctr.push_back(at({0.5L, -0.75L, 2.25L, 0.25L})); }
    std::vector<P_> ext{at({2, 1, 1.5L, 1, 1.25L}), at({0.5L, 3, 0.75L, 2, 0.5L})}; if (deep) ext.push_back(at({4, 0.25L, 4, 0.25L, 4}));
    auto xs = transforms<M>(); int turn = 0;
    auto unit_ = [&]() { return UNEVEN ? std::ldexp(T(1), 9 * (turn++ % 3 - 1)) : T(1); }; auto in = [](const AffineTransform<T, M>& x, T u) { if (u == 1) return x; V_ k; for (int i = 0; i < M; ++i) k[i] = 1 / u; return x * scale(k); };
    for (auto& c : ctr) for (auto& e : ext) {
        P_ h = plus_(c, e); std::string n = mc::str(lat::show(c), "+", lat::show(e));
        put("box " + n, Rect<T, M>(v(c), v(h)), pts(corners(c, h)), false);
        for (auto& x : xs) if (deep or &c == &ctr[1] or (&e == &ext[0])) { T u = unit_(); put("oriented box " + n + " " + x.name, Oriented<Rect<T, M>>(Rect<T, M>(v(c) * u, v(h) * u), in(x.xf, u)), img(x, pts(corners(c, h))), false); }
        put("capsule " + n, Capsule<T, M>(v(c), v(h), (T)0.5 * SC), ball(pts({c, h}), 0.5L), false);
        put("cylinder " + n, Cylinder<T, M>(v(c), v(h), (T)0.5 * SC), cyl(c, h, 0.5L), false);
        put("rounded box " + n, Dilated<Rect<T, M>>(Rect<T, M>(v(c), v(h)), (T)0.25 * SC), ball(pts(corners(c, h)), 0.25L), false);
    }
    { P_ c = at({-1, -1, -1, -1, -1}), h = at({1, -1, 0.5L, 2, 1}); put("flat box", Rect<T, M>(v(c), v(h)), pts(corners(c, h)), true); }
    for (auto& c : ctr) for (R r : {0.5L, 1.25L}) {
        put(mc::str("ball ", lat::show(c), " r ", r), Sphere<T, M>(v(c), (T)r * SC), ball(pts({c}), r), false);
        for (auto& x : xs) if (deep or (&c == &ctr[2] and r < 1)) { T u = unit_(); put(mc::str("ellipsoid ", lat::show(c), " r ", r, " ", x.name), Oriented<Sphere<T, M>>(Sphere<T, M>(v(c) * u, (T)r * SC * u), in(x.xf, u)), img(x, ball(pts({c}), r)), false); }
    }
    // simplexes of every vertex count
    std::vector<P_> w{at({0, 0, 0, 0}), at({2, 0, 1, 0.5L}), at({0, 2, -1, 1, -0.5L}), at({-1, -1, 2, 0, 1}), at({0.5L, 0.5L, 0.5L, 3, 0.5L}), at({-0.5L, 0, 1, 0.5L, 2})};
    std::vector<P_> sh{at({0, 0, 0, 0}), at({1.5L, 0.5L, 0.5L, 0.25L, -0.25L})}; if (deep) { sh.push_back(at({-2, 1, -1, 0.5L})); sh.push_back(at({0.25L, -0.5L, 0.75L, -1})); }
    for (auto& c : sh) for (int k = 1; k <= M + 1; ++k) {
        std::vector<P_> q; Simplex<T, M> s; for (int i = 0; i < k; ++i) { q.push_back(plus_(w[i], c)); s.insert(v(q.back())); }
        std::string n = mc::str(k, "-vertex simplex at ", lat::show(c)); put(n, s, pts(q), k <= M); put("rounded " + n, Dilated<Simplex<T, M>>(s, (T)0.5 * SC), ball(pts(q), 0.5L), false);
        for (size_t x = 4; x < xs.size(); x += 3) put("oriented " + n + " " + xs[x].name, Oriented<Simplex<T, M>>(s, xs[x].xf), img(xs[x], pts(q)), k <= M);
    }
    { Simplex<T, M> s; P_ a = at({-1, 0, 0, 0}), b = at({1, 0, 0, 0}), c = at({0, 0, 0, 0}); s.insert(v(a)); s.insert(v(b)); s.insert(v(c)); put("collinear simplex", s, pts({a, b, c}), true); }
    // extrusions and frustums
#if MCP > 2
    { A<M - 1> c{}; for (R r : {0.5L, 1.5L}) for (R z : {-0.75L, 1.0L}) { std::vector<P_> q; auto cc = low(c) * SC; P_ lo{}, hi{}; for (int i = 0; i < M - 1; ++i) lo[i] = hi[i] = c[i]; lo[M - 1] = z; hi[M - 1] = z + 1.5L; put(mc::str("extruded ball r ", r, " z ", z), Extruded<Sphere<T, M - 1>>(Sphere<T, M - 1>(cc, (T)r * SC), Rect<T, 1>((T)z * SC, (T)(z + 1.5L) * SC)), cyl(lo, hi, r), false); c[0] += 1; } }
    for (R z : {0.5L, -2.0L}) { std::vector<P_> q; A<M - 1> lo, hi; for (int i = 0; i < M - 1; ++i) { lo[i] = -0.5L + i; hi[i] = 1 + i; } for (R h : {z, z + 1}) for (int m = 0; m < 1 << (M - 1); ++m) { P_ p; for (int i = 0; i < M - 1; ++i) p[i] = h * (m >> i & 1 ? hi[i] : lo[i]); p[M - 1] = h; q.push_back(p); } put(mc::str("frustum z ", z), Frustum<Rect<T, M - 1>>(Rect<T, M - 1>(low(lo), low(hi)), Rect<T, 1>((T)z * SC, (T)(z + 1) * SC)), pts(q), false); }
#endif
    return o;
}
static bool round_(const Item& i) { return i.s.index() >= 3 and i.s.index() != 9 and i.s.index() != 11; }
void mc_run() {
    IDX = 0; auto I = items(); std::vector<std::vector<Item>> scaled; for (int e : {-12, 12}) { SC = std::ldexp(T(1), e); UNEVEN = true; scaled.push_back(items()); } SC = 1; UNEVEN = false; mc::bound("shapes", I.size()); mc::bound("dimension", M); mc::bound("element type", sizeof(T) == 8 ? "double" : "float");
    const R exact = sizeof(T) == 8 ? 1e-7L : 1e-3L;
    for (size_t i = 0; i < I.size(); ++i) {
        if (not mc::begin("overlap", IDX++)) continue;
        const Item& a = I[i]; std::vector<int> want(I.size());
        Intersector<T, M> warm;
        for (int pass = 0; pass < 2; ++pass) for (size_t jj = 0; jj < I.size(); ++jj) {
            size_t j = pass ? I.size() - 1 - jj : jj; const Item& b = I[j]; std::string ctx = a.name + " & " + b.name;
            if (not pass) { want[j] = truth(a.sup, b.sup, round_(a) or round_(b) ? std::max(exact, 0.01L) : exact); mc::state(); }
            int w = want[j]; const char* tag = round_(a) or round_(b) ? "round" : "flat";
            mc::trace();
            Intersector<T, M> fresh; bool g = fresh.intersects(*a.ac, *b.ac), h = warm.intersects(*a.ac, *b.ac); mc::step(); mc::step();
            if (not w) continue;
            if (g != (w > 0)) mc::fail(mc::str("gjk ", tag), mc::str(ctx, ": reported ", g, " truth ", w > 0, " after ", fresh.iterations, " iterations"));
            if (h != (w > 0)) mc::fail(mc::str("warm gjk ", tag), mc::str(ctx, ": reported ", h, " truth ", w > 0, " by an intersector used before, after ", warm.iterations, " iterations"));
            for (auto* x : {&fresh, &warm}) if (w < 0 and not(x == &fresh ? g : h)) { P_ d, m; for (int k = 0; k < M; ++k) { d[k] = x->separation_axis[k]; m[k] = -d[k]; } R reach = dot(a.sup(d), d), from = dot(b.sup(m), d); if (not(reach <= from + 1e-4L * len(d)) or not(len(d) > 0)) mc::fail("separation axis", mc::str(ctx, ": axis ", lat::show(d), " reach ", reach, " from ", from)); }
            if (pass) continue;
            // the same pair far away from unit scale
            { int e = (i + j) & 1; auto &x = scaled[e][i], &y = scaled[e][j]; mc::step(2); Intersector<T, M> is; if (is.intersects(*x.ac, *y.ac) != (w > 0)) mc::fail(mc::str("scaled gjk ", tag), mc::str(ctx, ": scaled by 2^", e ? 12 : -12, " reported ", not(w > 0), " after ", is.iterations, " iterations"));
              std::visit([&](auto& p, auto& q) { if (p.intersects(q) != (w > 0)) mc::fail(mc::str("scaled intersects of ", a.s.index(), " with ", b.s.index()), mc::str(ctx, ": scaled by 2^", e ? 12 : -12, " reported ", not(w > 0))); }, x.s, y.s); }
            if (geom::intersects<T, M>(*a.ac, *b.ac) != (w > 0)) mc::fail("free function", ctx);
            std::visit([&](auto& x, auto& y) {
                bool r = x.intersects(y); mc::step();
                if (r != (w > 0)) mc::fail(mc::str("member intersects of ", a.s.index(), " with ", b.s.index()), mc::str(ctx, ": reported ", r, " truth ", w > 0));
            }, a.s, b.s);
        }
    }
    // the same pairs slid together until only a small gap, or a small overlap, is left
    std::vector<R> gaps = mc::thorough() ? M >= 4 ? std::vector<R>{0.0625L, 0.0078125L} : std::vector<R>{0.25L, 0.0625L, 0.015625L, 0.0078125L} : std::vector<R>{0.125L, 0.015625L};
    for (size_t i = 0; i < I.size(); ++i) {
        if (not mc::begin("slid", IDX++)) continue;
        const Item& a = I[i]; Intersector<T, M> warm;
        for (auto& b : I) {
            Gap g = gap(a.sup, b.sup, {}, true); if (g.up < 0.5L) continue;
            for (R e : gaps) for (int s : {-1, 1}) {
                P_ t = g.x; for (auto& x : t) x *= 1 - s * e / g.up; for (auto& x : t) x = (R)(T)x;
                int w = truth(a.sup, [&](const P_& d) { return plus_(b.sup(d), t); }, e / 8); if (not w) continue;
                mc::state(); mc::trace(); mc::step(); Slid sb(*b.ac, v(t)); Intersector<T, M> fresh; bool r = fresh.intersects(*a.ac, sb), q = fresh.intersects(sb, *a.ac), h = warm.intersects(*a.ac, sb);
                if (r != (w > 0) or q != (w > 0) or h != (w > 0)) mc::fail(mc::str("slid ", round_(a) or round_(b) ? "round" : "flat"), mc::str(a.name, " & ", b.name, " slid by ", lat::show(t), ": reported ", r, q, h, " truth ", w > 0, " gap ", s * e, " after ", fresh.iterations));
            }
        }
    }
}
