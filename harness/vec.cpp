// C16: vectors against their coordinate-wise definitions.
#include "mc.h"
#include "lat.h"
#include <geomc/linalg/Vec.h>
using namespace geom;
static uint64_t IDX;
typedef long double R;
template <typename T> R tol() { return std::is_floating_point<T>::value ? (sizeof(T) == 8 ? 1e-12L : 1e-5L) : 0; }
template <typename T, index_t N> struct Chk {
    typedef Vec<T, N> V; typedef std::vector<R> A;
    static constexpr bool fl = std::is_floating_point<T>::value;
    static std::string ctx;
    static A arr(const V& v) { A o; for (index_t i = 0; i < N; ++i) o.push_back(v[i]); return o; }
    static bool near(R a, R b, R scale = 1) { return a == b or std::abs(a - b) <= tol<T>() * std::max<R>(scale, std::max(std::abs(a), std::abs(b))); }
    static void eq(const char* what, const V& got, const A& want, R scale = 1) {
        mc::step(); bool ok = true; for (index_t i = 0; i < N; ++i) ok = ok and near(got[i], want[i], scale);
        if (not ok) mc::fail(what, mc::str(ctx, ": ", what, " gave ", got, " expected ", lat::show(want)));
    }
    static void eqs(const char* what, R got, R want, R scale = 1) { mc::step(); if (not near(got, want, scale)) mc::fail(what, mc::str(ctx, ": ", what, " gave ", got, " expected ", want)); }
    template <typename F> static A map(const A& a, F f) { A o; for (R x : a) o.push_back(f(x)); return o; }
    template <typename F> static A zip(const A& a, const A& b, F f) { A o; for (size_t i = 0; i < a.size(); ++i) o.push_back(f(a[i], b[i])); return o; }
    static R dot(const A& a, const A& b) { R s = 0; for (size_t i = 0; i < a.size(); ++i) s += a[i] * b[i]; return s; }
    static R T_(R x) { return fl ? x : std::trunc(x); }
    static void unary(const V& v, const A& a) {
        ctx = mc::str(N, "D ", lat::show(a));
        eq("negate", -v, map(a, [](R x) { return -x; }));
        eq("abs", v.abs(), map(a, [](R x) { return std::abs(x); })); eq("std::abs", std::abs(v), map(a, [](R x) { return std::abs(x); }));
        eqs("mag2", v.mag2(), dot(a, a)); eqs("size", v.size(), N); 
        bool z = true; for (R x : a) z = z and x == 0; MC_CHECK(v.is_zero() == z, "is_zero", ctx);
        R mx = a[0], mn = a[0], ax = std::abs(a[0]), an = ax; for (R x : a) { mx = std::max(mx, x); mn = std::min(mn, x); ax = std::max(ax, std::abs(x)); an = std::min(an, std::abs(x)); }
        eqs("min element", v.min(), mn); eqs("max element", v.max(), mx);
        index_t p = v.argmax(), q = v.argmin();
        MC_CHECK(p >= 0 and p < N and std::abs(a[p]) == ax, "argmax", ctx, " argmax ", p); MC_CHECK(q >= 0 and q < N and std::abs(a[q]) == an, "argmin", ctx, " argmin ", q);
        MC_CHECK(v.end() - v.begin() == N, "iteration", ctx); { A it; for (T x : v) it.push_back(x); MC_CHECK(it == a, "iteration", ctx, " iterates ", lat::show(it)); }
        { V w = v; A it; for (T& x : w) x = x + 1; eq("write through iterator", w, map(a, [](R x) { return x + 1; })); for (index_t i = 0; i < N; ++i) { V u = v; u[i] = 7; u.get((i + 1) % N) = (T)(N == 1 ? 7 : 9); A e = a; e[i] = 7; e[(i + 1) % N] = N == 1 ? 7 : 9; eq("element write", u, e); } }
        { T raw[N]; for (index_t i = 0; i < N; ++i) raw[i] = (T)a[i]; V u(raw); eq("from array", u, a); MC_CHECK(u == v and not (u != v), "equality", ctx); V c(v); eq("copy", c, a); V d; eq("default", d, A(N, 0)); d = v; eq("assign", d, a); MC_CHECK(V::ones == V((T)1) and V::zeros == V((T)0), "constants", ctx); eq("unit_x", V::unit_x, [] { A e(N, 0); e[0] = 1; return e; }()); }
        if constexpr (N > 1 and N < 6) { Vec<T, N + 1> w(v, (T)5); bool ok = w[N] == 5; for (index_t i = 0; i < N; ++i) ok = ok and w[i] == v[i]; MC_CHECK(ok, "append", ctx, " append gave ", w); }
        { Vec<double, N> w = (Vec<double, N>)v; Vec<int, N> k = (Vec<int, N>)v; bool ok = true; for (index_t i = 0; i < N; ++i) ok = ok and w[i] == (double)v[i] and k[i] == (int)v[i]; MC_CHECK(ok, "cast", ctx, " cast to ", w, " / ", k); }
        { auto w = v.template resized<N + 2>(); bool ok = w[N] == 0 and w[N + 1] == 0; for (index_t i = 0; i < N; ++i) ok = ok and w[i] == v[i]; MC_CHECK(ok, "grow", ctx, " resized to ", w); }
        if constexpr (N > 2) { auto w = v.template resized<N - 1>(); bool ok = true; for (index_t i = 0; i < N - 1; ++i) ok = ok and w[i] == v[i]; MC_CHECK(ok, "shrink", ctx, " resized to ", w); }
        { T w = v.template resized<1>(); MC_CHECK(w == v[0], "resized<1>", ctx, " resized to ", w); }
        { std::ostringstream o; o << v; std::string w = "("; for (index_t i = 0; i < N; ++i) w += (i ? ", " : "") + mc::str(v[i]); MC_CHECK(o.str() == w + ")", "print", ctx, " prints ", o.str()); }
        if constexpr (fl) {
            R m = std::sqrt(dot(a, a)); eqs("mag", v.mag(), m); eq("floor", v.floor(), map(a, [](R x) { return std::floor(x); })); eq("ceil", v.ceil(), map(a, [](R x) { return std::ceil(x); })); eq("round", v.round(), map(a, [](R x) { return std::round(x); }));
            eq("std::floor", std::floor(v), map(a, [](R x) { return std::floor(x); })); eq("std::ceil", std::ceil(v), map(a, [](R x) { return std::ceil(x); }));
            eq("std::sin", std::sin(v), map(a, [](R x) { return std::sin(x); })); eq("std::cos", std::cos(v), map(a, [](R x) { return std::cos(x); })); eq("std::tan", std::tan(v), map(a, [](R x) { return std::tan(x); })); eq("std::exp", std::exp(v), map(a, [](R x) { return std::exp(x); }));
            A pa = map(a, [](R x) { return std::abs(x) + 1; }); V pv; for (index_t i = 0; i < N; ++i) pv[i] = (T)pa[i]; eq("std::sqrt", std::sqrt(pv), map(pa, [](R x) { return std::sqrt(x); })); eq("std::log", std::log(pv), map(pa, [](R x) { return std::log(x); }));
            if (m > 0) eq("unit", v.unit(), map(a, [m](R x) { return x / m; }));
            for (R l : {0.0L, 2.5L, -1.0L}) eq("with_length", v.with_length((T)l), map(a, [m, l](R x) { return m == 0 ? 0 : x * l / m; }));
        }
        for (R s : {-2.0L, 0.0L, 1.0L, 3.0L, 0.5L}) {
            if (not fl and s == 0.5L) { eq("times real", v * 0.5, map(a, [](R x) { return T_(x * 0.5L); })); eq("real times", 0.5 * v, map(a, [](R x) { return T_(x * 0.5L); })); continue; }
            eq("times scalar", v * (T)s, map(a, [s](R x) { return x * s; })); eq("scalar times", (T)s * v, map(a, [s](R x) { return x * s; })); eq("scale", v.scale((T)s), map(a, [s](R x) { return x * s; }));
            { V w = v; V& r = (w *= (T)s); eq("*= scalar", w, map(a, [s](R x) { return x * s; })); MC_CHECK(&r == &w, "chain", "*= does not return its operand"); }
            if (s != 0) { eq("over scalar", v / (T)s, map(a, [s](R x) { return T_(x / s); })); V w = v; V& r = (w /= (T)s); eq("/= scalar", w, map(a, [s](R x) { return T_(x / s); })); MC_CHECK(&r == &w, "chain", "/= does not return its operand"); }
            bool nz = true; for (R x : a) nz = nz and x != 0; if (nz) eq("scalar over", (T)s / v, map(a, [s](R x) { return T_(s / x); }));
        }
        if constexpr (N == 2) {
            eq("reflected_x", v.reflected_x(), A{-a[0], a[1]}); eq("reflected_y", v.reflected_y(), A{a[0], -a[1]}); eq("left_perpendicular", v.left_perpendicular(), A{-a[1], a[0]}); eq("right_perpendicular", v.right_perpendicular(), A{a[1], -a[0]});
            MC_CHECK(v.x == v[0] and v.y == v[1] and v.s == v.x and v.t == v.y and v.row == v.x and v.col == v.y, "names", ctx); { V w; w.x = v[0]; w.y = v[1]; eq("names", w, a); V u(v[0], v[1]); eq("construct", u, a); }
            MC_CHECK((V::X_AXIS == V(1, 0) and V::Y_AXIS == V(0, 1)), "axes", ctx);
            if constexpr (fl) {
                MC_CHECK(v.is_finite_real(), "is_finite_real", ctx); for (int i = 0; i < 2; ++i) for (T bad : {std::numeric_limits<T>::infinity(), -std::numeric_limits<T>::infinity(), std::numeric_limits<T>::quiet_NaN()}) { V w = v; w[i] = bad; MC_CHECK(not w.is_finite_real(), "is_finite_real", ctx, " with ", bad); }
                R m = std::sqrt(dot(a, a)), th = std::atan2(a[1], a[0]); if (th < 0) th += 2 * M_PIl;
                if (m > 0) { eqs("angle", v.angle(), th); eq("to_polar", v.to_polar(), A{m, th}); eq("polar round trip", v.to_polar().from_polar(), a, 10); }
                eq("from_polar", v.from_polar(), A{a[0] * std::cos(a[1]), a[0] * std::sin(a[1])}, 10);
                for (R t : {0.0L, 0.5L, -2.0L, 4.0L}) for (R cx : {0.0L, -1.0L, 2.0L}) { R c = std::cos(t), s = std::sin(t); if (cx == 0) eq("rotated", v.rotated((T)t), A{c * a[0] - s * a[1], s * a[0] + c * a[1]}, 10); R x = a[0] - cx, y = a[1] - 3; eq("rotate about center", v.rotate(V((T)cx, 3), (T)t), A{cx + c * x - s * y, 3 + s * x + c * y}, 30); }
            }
        }
        if constexpr (N == 3) {
            eq("reflected_x", v.reflected_x(), A{-a[0], a[1], a[2]}); eq("reflected_y", v.reflected_y(), A{a[0], -a[1], a[2]}); eq("reflected_z", v.reflected_z(), A{a[0], a[1], -a[2]});
            MC_CHECK(v.x == v[0] and v.y == v[1] and v.z == v[2] and v.s == v.x and v.t == v.y and v.u == v.z and v.r == v.x and v.g == v.y and v.b == v.z, "names", ctx); V u(v[0], v[1], v[2]); eq("construct", u, a); V w(Vec<T, 2>(v[0], v[1]), v[2]); eq("construct", w, a);
            MC_CHECK((V::X_AXIS == V(1, 0, 0) and V::Y_AXIS == V(0, 1, 0) and V::Z_AXIS == V(0, 0, 1)), "axes", ctx);
            if constexpr (fl) {
                MC_CHECK(v.is_finite_real(), "is_finite_real", ctx); for (int i = 0; i < 3; ++i) for (T bad : {std::numeric_limits<T>::infinity(), std::numeric_limits<T>::quiet_NaN()}) { V w2 = v; w2[i] = bad; MC_CHECK(not w2.is_finite_real(), "is_finite_real", ctx, " with ", bad); }
                R m = std::sqrt(dot(a, a)); if (m > 0) { auto s = v.to_spherical(); eqs("spherical r", s[0], m); if (a[0] != 0 or a[1] != 0) eqs("spherical azimuth", s[2], std::atan2(a[1], a[0])); eqs("spherical elevation", std::cos(s[1]), a[2] / m); MC_CHECK(s[1] >= 0 and s[1] <= (T)3.15, "spherical elevation", ctx); eq("spherical round trip", V::from_spherical(s[0], s[1], s[2]), a, sizeof(T) == 4 ? 30 : 1e4); }
                eq("from_spherical", V::from_spherical(v[0], v[1], v[2]), A{a[0] * std::sin(a[1]) * std::cos(a[2]), a[0] * std::sin(a[1]) * std::sin(a[2]), a[0] * std::cos(a[1])}, 10);
            }
        }
        if constexpr (N == 4) { MC_CHECK(v.x == v[0] and v.y == v[1] and v.z == v[2] and v.w == v[3] and v.s == v.x and v.t == v.y and v.u == v.z and v.v == v.w and v.r == v.x and v.g == v.y and v.b == v.z and v.a == v.w, "names", ctx); V u(v[0], v[1], v[2], v[3]); eq("construct", u, a); V w(Vec<T, 3>(v[0], v[1], v[2]), v[3]); eq("construct", w, a); V y(Vec<T, 2>(v[0], v[1]), v[2], v[3]); eq("construct", y, a); MC_CHECK((V::X_AXIS == V(1, 0, 0, 0) and V::Y_AXIS == V(0, 1, 0, 0) and V::Z_AXIS == V(0, 0, 1, 0) and V::W_AXIS == V(0, 0, 0, 1)), "axes", ctx); }
        if constexpr (N == 5) { V u = {v[0], v[1], v[2], v[3], v[4]}; eq("brace", u, a); }
    }
    static void binary(const V& v, const A& a, const V& w, const A& b) {
        ctx = mc::str(N, "D ", lat::show(a), " ", lat::show(b));
        auto add = zip(a, b, [](R x, R y) { return x + y; }), sub = zip(a, b, [](R x, R y) { return x - y; }), mul = zip(a, b, [](R x, R y) { return x * y; });
        eq("add", v + w, add); eq("add", v.add(w), add); eq("subtract", v - w, sub); eq("subtract", v.sub(w), sub); eq("multiply", v * w, mul); eq("multiply", v.scale(w), mul);
        { V c = v; V& r = (c += w); eq("+=", c, add); MC_CHECK(&r == &c, "chain", "+="); } { V c = v; V& r = (c -= w); eq("-=", c, sub); MC_CHECK(&r == &c, "chain", "-="); } { V c = v; V& r = (c *= w); eq("*=", c, mul); MC_CHECK(&r == &c, "chain", "*="); }
        bool nz = true; for (R x : b) nz = nz and x != 0; if (nz) eq("divide", v / w, zip(a, b, [](R x, R y) { return T_(x / y); }));
        eq("min", v.min(w), zip(a, b, [](R x, R y) { return std::min(x, y); })); eq("max", v.max(w), zip(a, b, [](R x, R y) { return std::max(x, y); })); eq("std::min", std::min(v, w), zip(a, b, [](R x, R y) { return std::min(x, y); })); eq("std::max", std::max(v, w), zip(a, b, [](R x, R y) { return std::max(x, y); }));
        MC_CHECK((v == w) == (a == b) and (v != w) == (a != b), "equality", ctx); eqs("dot", v.dot(w), dot(a, b)); eqs("dist2", v.dist2(w), dot(sub, sub));
        { V lo = v.min(w), hi = v.max(w); for (T t : {(T)-3, (T)0, (T)1, (T)2}) { V c(t); A cl; for (index_t i = 0; i < N; ++i) cl.push_back(std::min(std::max<R>(t, std::min(a[i], b[i])), std::max(a[i], b[i]))); eq("clamp", c.clamp(lo, hi), cl); } }
        for (R t : {0.0L, 1.0L, 0.25L, 3.0L}) if (fl or t == std::floor(t)) eq("mix", v.mix(w, (T)t), zip(a, b, [t](R x, R y) { return x * (1 - t) + y * t; }), 4);
        // operands that are, or lie inside, the vector being changed
        { V c = v; c += c; eq("self +=", c, map(a, [](R x) { return x + x; })); c = v; c -= c; eq("self -=", c, A(N, 0)); c = v; c *= c; eq("self *=", c, map(a, [](R x) { return x * x; })); }
        for (index_t k = 0; k < N; ++k) { R s = a[k]; V c = v; c *= c[k]; eq("scale by own element", c, map(a, [s](R x) { return x * s; })); if (s != 0) { c = v; c /= c[k]; eq("divide by own element", c, map(a, [s](R x) { return T_(x / s); })); } }
        R bb = dot(b, b), ab = dot(a, b);
        if constexpr (fl) {
            for (T far : {(T)std::ldexp(1., 60), (T)std::ldexp(1., -60)}) { V f = v * far; MC_CHECK(f.mix(w, 0) == f and f.mix(w, 1) == w and w.mix(f, 0) == w and w.mix(f, 1) == f, "mix ends", ctx, " scale ", far); }
            eqs("dist", v.dist(w), std::sqrt(dot(sub, sub)));
            if (bb > 0) {
                eq("project_on", v.project_on(w), map(b, [&](R x) { return x * ab / bb; })); eqs("fraction_on", v.fraction_on(w), ab / bb); eq("reflect_about", v.reflect_about(w), zip(a, b, [&](R x, R y) { return -x + 2 * y * ab / bb; }), 4); eq("bounce_on", v.bounce_on(w), zip(a, b, [&](R x, R y) { return x - 2 * y * ab / bb; }), 4);
                R aa = dot(a, a); if (aa > 0) { R c = ab / std::sqrt(aa * bb); eqs("angle_to", std::cos(v.angle_to(w)), c); MC_CHECK(v.angle_to(w) >= 0 and v.angle_to(w) <= (T)3.1416, "angle_to", ctx); }
            } else eq("project_on", v.project_on(w), A(N, 0));
        }
        if constexpr (N == 2) { eq("add xy", v.add(w[0], w[1]), add); eq("sub xy", v.sub(w[0], w[1]), sub); eq("scale xy", v.scale(w[0], w[1]), mul); eqs("dot xy", v.dot(w[0], w[1]), dot(a, b)); }
        if constexpr (N == 3) {
            eq("add xyz", v.add(w[0], w[1], w[2]), add); eq("sub xyz", v.sub(w[0], w[1], w[2]), sub); eq("scale xyz", v.scale(w[0], w[1], w[2]), mul); eqs("dot xyz", v.dot(w[0], w[1], w[2]), dot(a, b));
            A cr{a[1] * b[2] - a[2] * b[1], a[2] * b[0] - a[0] * b[2], a[0] * b[1] - a[1] * b[0]}; eq("cross", v.cross(w), cr); eq("cross", v ^ w, cr);
            if constexpr (fl) if (bb > 0) {
                R m = std::sqrt(bb); auto rot = [&](A p, R t) { A k = map(b, [m](R x) { return x / m; }); R kd = dot(k, p); A kx{k[1] * p[2] - k[2] * p[1], k[2] * p[0] - k[0] * p[2], k[0] * p[1] - k[1] * p[0]}; A o; for (int i = 0; i < 3; ++i) o.push_back(p[i] * std::cos(t) + kx[i] * std::sin(t) + k[i] * kd * (1 - std::cos(t))); return o; };
                for (R t : {0.0L, 0.5L, -2.0L}) { eq("rotate", v.rotate(w, (T)t), rot(a, t), 10); eq("rotate", v.rotate(w[0], w[1], w[2], (T)t), rot(a, t), 10); A c{1, -2, 3}; A q = rot(zip(a, c, [](R x, R y) { return x - y; }), t); V u = v; eq("rotate about center", u.rotate(w, V(1, -2, 3), (T)t), zip(q, c, [](R x, R y) { return x + y; }), 30); eq("rotate about center", u.rotate(w[0], w[1], w[2], 1, -2, 3, (T)t), zip(q, c, [](R x, R y) { return x + y; }), 30); }
                R aa = dot(a, a); if (aa > 0) { R c = ab / std::sqrt(aa * bb); if (c > -0.9) { V f = v.unit(), g = w.unit(); V u = f; eq("align", u.align(f, g), map(b, [m](R x) { return x / m; }), 10); V x(1, -2, 3); V y = x.align(f, g); eqs("align keeps length", y.mag(), x.mag(), 10); eqs("align keeps angles", y.dot(g), x.dot(f), 10); V n = f.cross(g); eq("align keeps axis", n.align(f, g), arr(n), 10); } }
                V nrm = triangle_normal<T>(V((T)0), v, w); R cm = std::sqrt(dot(cr, cr)); if (cm > 0) eq("triangle_normal", nrm, map(cr, [cm](R x) { return x / cm; }), 10);
            }
        }
        if constexpr (N == 4) { eq("add xyzw", v.add(w[0], w[1], w[2], w[3]), add); eq("sub xyzw", v.sub(w[0], w[1], w[2], w[3]), sub); eq("scale xyzw", v.scale(w[0], w[1], w[2], w[3]), mul); eqs("dot xyzw", v.dot(w[0], w[1], w[2], w[3]), dot(a, b)); }
    }
    static void run(const char* grp, const std::vector<double>& vals) {
        std::vector<V> vs; std::vector<A> as;
        lat::tuples_n<double>(N, vals, [&](const std::vector<double>& t) { V v; A a; for (index_t i = 0; i < N; ++i) { v[i] = (T)t[i]; a.push_back((T)t[i]); } vs.push_back(v); as.push_back(a); });
        for (size_t i = 0; i < vs.size(); ++i) { if (not mc::begin(grp, IDX++)) continue; mc::state(); mc::trace(vs.size() + 1); unary(vs[i], as[i]); for (size_t j = 0; j < vs.size(); ++j) binary(vs[i], as[i], vs[j], as[j]); }
    }
};
template <typename T, index_t N> std::string Chk<T, N>::ctx;
static void colors() {
    if (not mc::begin("colors", IDX++)) return;
    for (unsigned k : {0u, 1u, 127u, 128u, 255u}) for (unsigned l : {0u, 3u, 200u, 255u}) for (unsigned m : {0u, 77u, 255u}) for (unsigned n : {0u, 128u, 255u}) {
        int c = (int)(n << 24 | k << 16 | l << 8 | m); mc::step(5);
        auto f = from_rgb<double>(c); MC_CHECK(std::abs(f[0] - k / 255.) < 1e-12 and std::abs(f[1] - l / 255.) < 1e-12 and std::abs(f[2] - m / 255.) < 1e-12, "from_rgb", c, " -> ", f);
        auto i = from_rgb<int>(c); MC_CHECK(i[0] == (int)k and i[1] == (int)l and i[2] == (int)m, "from_rgb", c, " -> ", i);
        auto g = from_argb<float>(c); MC_CHECK(std::abs(g[0] - k / 255.) < 1e-6 and std::abs(g[1] - l / 255.) < 1e-6 and std::abs(g[2] - m / 255.) < 1e-6 and std::abs(g[3] - n / 255.) < 1e-6, "from_argb", c, " -> ", g);
        auto h = from_rgba<double>(c); MC_CHECK(std::abs(h[0] - n / 255.) < 1e-12 and std::abs(h[1] - k / 255.) < 1e-12 and std::abs(h[2] - l / 255.) < 1e-12 and std::abs(h[3] - m / 255.) < 1e-12, "from_rgba", c, " -> ", h);
        auto j = from_argb<int>(c); MC_CHECK(j[0] == (int)k and j[3] == (int)n, "from_argb", c, " -> ", j);
    }
    mc::state(); mc::trace();
}
void mc_run() {
    IDX = 0; const bool th = mc::thorough();
    const std::vector<double> ints = th ? std::vector<double>{-3, -2, -1, 0, 1, 2, 5} : std::vector<double>{-2, -1, 0, 1, 3}, reals = th ? std::vector<double>{-2, -1, -0.5, 0, 0.5, 1, 1.75, 3} : std::vector<double>{-2, -0.5, 0, 1, 1.75}, few = {-2, 0, 1}, fewr = {-1.5, 0, 1}, two = {-1.5, 2};
#if MCP == 1
    Chk<double, 1>::run("d1", reals); Chk<float, 1>::run("f1", reals); Chk<long, 1>::run("l1", ints); Chk<int, 1>::run("i1", ints);
    Chk<double, 2>::run("d2", reals); Chk<float, 2>::run("f2", reals); Chk<long, 2>::run("l2", ints); Chk<int, 2>::run("i2", ints); colors();
#elif MCP == 2
    Chk<double, 3>::run("d3", th ? std::vector<double>{-2, -0.5, 0, 1, 1.75, 3} : std::vector<double>{-2, 0, 1, 1.75}); Chk<float, 3>::run("f3", fewr); 
#elif MCP == 3
    Chk<long, 3>::run("l3", th ? ints : few); Chk<int, 3>::run("i3", few); Chk<double, 4>::run("d4", fewr); Chk<long, 4>::run("l4", few); if (th) { Chk<float, 4>::run("f4", fewr); }
#else
    Chk<double, 5>::run("d5", th ? fewr : two); Chk<long, 5>::run("l5", two); Chk<double, 6>::run("d6", two); Chk<float, 6>::run("f6", two); if (th) Chk<int, 7>::run("i7", two);
#endif
    mc::bound("vectors", "all pairs from {-2,-.5,0,1,1.75}^N (reals) or {-2..3}^N (integers), N=1-3, fewer values for N=4-6; double, float, long, int");
    mc::sample("3D (-2,0,1) (1,1,0): about 40 binary operations compared with long double definitions");
}
