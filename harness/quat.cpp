// C29: quaternions against the Hamilton algebra and Rodrigues rotations in long double.
#include "mc.h"
#include "lat.h"
#include <geomc/linalg/Vec.h>
#include <geomc/linalg/Quaternion.h>
#include <geomc/linalg/AffineTransform.h>
using namespace geom;
typedef long double R;
#ifndef ET
#define ET double
#endif
typedef ET T; typedef Quat<T> Q; typedef Vec<T, 3> V3;
static uint64_t IDX; static std::string ctx;
static const R TOL = sizeof(T) == 8 ? 1e-12L : 1e-5L;
typedef std::array<R, 4> A4; typedef std::array<R, 3> A3;   // x y z w
static A4 arr(const Q& q) { return {q.x, q.y, q.z, q.w}; }
static A4 hmul(const A4& p, const A4& q) {   // from the multiplication table of the units i, j, k
    static const int I[4] = {1, 2, 3, 0};   // position in (1,i,j,k)
    static const int prod[4][4] = {{0, 1, 2, 3}, {1, 0, 3, 2}, {2, 3, 0, 1}, {3, 2, 1, 0}}, sg[4][4] = {{1, 1, 1, 1}, {1, -1, 1, -1}, {1, -1, -1, 1}, {1, 1, -1, -1}};
    A4 o{}; for (int a = 0; a < 4; ++a) for (int b = 0; b < 4; ++b) { int k = prod[I[a]][I[b]]; o[k == 0 ? 3 : k - 1] += sg[I[a]][I[b]] * p[a] * q[b]; } return o;
}
static R mag(const A4& a) { return std::sqrt(a[0] * a[0] + a[1] * a[1] + a[2] * a[2] + a[3] * a[3]); }
static A4 sc(A4 a, R s) { for (R& x : a) x *= s; return a; }
static void eq(const char* key, const Q& q, const A4& e, R s = 1) { mc::step(); A4 a = arr(q); R m = std::max<R>(s, mag(e)); for (int i = 0; i < 4; ++i) if (not(std::abs(a[i] - e[i]) <= TOL * m)) { mc::fail(key, mc::str(ctx, ": ", key, " gave ", lat::show(a), " expected ", lat::show(e))); return; } }
static void eqv(const char* key, const V3& v, const A3& e, R s = 1) { mc::step(); for (int i = 0; i < 3; ++i) if (not(std::abs(v[i] - e[i]) <= TOL * std::max<R>(s, std::abs(e[i])))) { mc::fail(key, mc::str(ctx, ": ", key, " gave ", v, " expected ", lat::show(e))); return; } }
static void eqs(const char* key, R a, R e, R s = 1) { mc::step(); if (not(std::abs(a - e) <= TOL * std::max<R>(s, std::abs(e)))) mc::fail(key, mc::str(ctx, ": ", key, " gave ", a, " expected ", e)); }
static A3 rod(A3 k, R th, const A3& p) { R l = std::sqrt(k[0] * k[0] + k[1] * k[1] + k[2] * k[2]); if (l == 0) return p; for (R& x : k) x /= l; R d = k[0] * p[0] + k[1] * p[1] + k[2] * p[2], c = std::cos(th), s = std::sin(th); A3 x{k[1] * p[2] - k[2] * p[1], k[2] * p[0] - k[0] * p[2], k[0] * p[1] - k[1] * p[0]}, o; for (int i = 0; i < 3; ++i) o[i] = p[i] * c + x[i] * s + k[i] * d * (1 - c); return o; }
static const std::vector<A3>& vecs() { static std::vector<A3> o; if (o.empty()) lat::tuples<3, R>({-1, 0, 2}, [&](const A3& a) { o.push_back(a); }); return o; }
static V3 v3(const A3& a) { return V3((T)a[0], (T)a[1], (T)a[2]); }
static A4 lexp(const A4& q) { R m = std::sqrt(q[0] * q[0] + q[1] * q[1] + q[2] * q[2]), k = std::exp(q[3]), s = m == 0 ? 1 : std::sin(m) / m; return {k * s * q[0], k * s * q[1], k * s * q[2], k * std::cos(m)}; }
static std::vector<Q> group() {   // the binary octahedral group: 48 unit quaternions
    std::vector<Q> o; for (int i = 0; i < 4; ++i) for (int s : {1, -1}) { Q q; q[i] = s; o.push_back(q); }
    lat::tuples<4, R>({-0.5L, 0.5L}, [&](const A4& a) { Q q; for (int i = 0; i < 4; ++i) q[i] = (T)a[i]; o.push_back(q); });
    for (int i = 0; i < 4; ++i) for (int j = 0; j < i; ++j) for (int s : {1, -1}) for (int t : {1, -1}) { Q q; q[i] = s * (T)std::sqrt(0.5L); q[j] = t * (T)std::sqrt(0.5L); o.push_back(q); }
    return o;
}
static void algebra() {
    std::vector<A4> lat4; lat::tuples<4, R>(mc::tier(std::vector<R>{-2, 0, 1}, std::vector<R>{-2, -1, 0, 1, 3}), [&](const A4& a) { lat4.push_back(a); });
    mc::bound("algebra lattice", lat4.size()); auto mk = [](const A4& a) { return Q((T)a[0], (T)a[1], (T)a[2], (T)a[3]); };
    for (auto& a : lat4) {
        if (not mc::begin("algebra", IDX++)) continue; mc::state(); mc::trace(); Q q = mk(a); ctx = lat::show(a);
        eq("construct", q, a); eq("construct", Q(v3({a[0], a[1], a[2]}), (T)a[3]), a); eq("construct", Q(Vec<T, 4>((T)a[0], (T)a[1], (T)a[2], (T)a[3])), a); Q l = {(T)a[0], (T)a[1], (T)a[2], (T)a[3]}; eq("construct", l, a); T raw[4] = {(T)a[0], (T)a[1], (T)a[2], (T)a[3]}; eq("construct", Q(raw), a);
        eq("conj", q.conj(), {-a[0], -a[1], -a[2], a[3]}); eq("conj", std::conj(q), {-a[0], -a[1], -a[2], a[3]}); eqv("imag", q.imag(), {a[0], a[1], a[2]}); eqs("real", q.real(), a[3]); eqs("mag", q.mag(), mag(a)); eqs("mag2", q.mag2(), mag(a) * mag(a)); eq("negate", -q, sc(a, -1)); eq("scale", q * (T)3, sc(a, 3)); eq("scale", (T)3 * q, sc(a, 3)); eq("scale", q / (T)4, sc(a, 0.25L));
        if (mag(a) > 0) eq("unit", q.unit(), sc(a, 1 / mag(a)));
        typedef typename std::conditional<sizeof(T) == 8, float, double>::type O; Quat<O> c = q; MC_CHECK(c.x == (O)q.x and c.y == (O)q.y and c.z == (O)q.z and c.w == (O)q.w, "cast", ctx);
        eq("identity", q * Q::identity(), a); eq("identity", Q::identity() * q, a);
        R n2 = mag(a) * mag(a); eq("q conj(q)", q * q.conj(), {0, 0, 0, n2}, n2);
        for (auto& b : lat4) {
            Q r = mk(b); ctx = lat::show(a) + " " + lat::show(b); A4 e = hmul(a, b); eq("product", q * r, e); eq("product", q.mult(r), e); eqs("norm of product", (q * r).mag(), mag(a) * mag(b)); A4 s, d; R dt = 0; for (int i = 0; i < 4; ++i) { s[i] = a[i] + b[i]; d[i] = a[i] - b[i]; dt += a[i] * b[i]; } eq("sum", q + r, s); eq("difference", q - r, d); eqs("dot", q.dot(r), dt); MC_CHECK((q == r) == (a == b), "equality", ctx); eq("conj of product", (q * r).conj(), {-e[0], -e[1], -e[2], e[3]}); { Q t = q; t += r; eq("+=", t, s); t -= r; eq("-=", t, a); }
        }
    }
}
static void rotations() {
    auto g = group(); mc::bound("group size", g.size());
    for (size_t i = 0; i < g.size(); ++i) {
        if (not mc::begin("group", IDX++)) continue; mc::state();
        for (size_t j = 0; j < g.size(); ++j) {
            ctx = mc::str("q", i, " q", j); Q p = g[i] * g[j]; mc::trace(); bool in = false; for (auto& x : g) in = in or (x - p).mag() < 10 * TOL; MC_CHECK(in, "closure", ctx, ": product ", p, " leaves the group"); eq("product", p, hmul(arr(g[i]), arr(g[j])));
            for (auto& v : vecs()) { V3 a = v3(v); V3 b = g[i] * (g[j] * a); eqv("composition", p * a, {b.x, b.y, b.z}, 10); }
            for (size_t k = 0; k < g.size(); ++k) eq("associativity", (g[i] * g[j]) * g[k], arr(g[i] * (g[j] * g[k])), 4);
        }
        auto xf = rotation(g[i]);
        for (auto& v : vecs()) {
            ctx = mc::str("q", i, " = ", g[i], " on ", lat::show(v)); A4 e = hmul(hmul(arr(g[i]), {v[0], v[1], v[2], 0}), {-arr(g[i])[0], -arr(g[i])[1], -arr(g[i])[2], arr(g[i])[3]}); V3 a = v3(v); eqv("rotate", g[i] * a, {e[0], e[1], e[2]}, 10); eqv("rotate back", (g[i] * a) * g[i], v, 10); eqv("rotate back", a * g[i], [&] { V3 b = g[i].conj() * a; return A3{b.x, b.y, b.z}; }(), 10); eqv("rotation matrix", xf * a, {e[0], e[1], e[2]}, 10); eqs("length", (g[i] * a).mag(), a.mag(), 10); eqv("double cover", Q(-g[i]) * a, {e[0], e[1], e[2]}, 10);
        }
    }
    std::vector<R> angs{0, 0.25L, 1, 1.5707963L, 3, 3.14159L, 4, 6, -0.5L, -3};
    for (auto& k : vecs()) for (R th : angs) {
        if (not mc::begin("axis-angle", IDX++)) continue; mc::state(); mc::trace(); T t = (T)th; Q q = Q::rotation_from_axis_angle(v3(k), t); ctx = mc::str("axis ", lat::show(k), " angle ", t); R l = std::sqrt(k[0] * k[0] + k[1] * k[1] + k[2] * k[2]);
        eqs("unit rotation", q.mag(), 1); for (int ex : {-20, 20}) { V3 far = v3(k) * std::ldexp((T)1, ex); eq("axis of another length", Q::rotation_from_axis_angle(far, t), arr(q)); } for (auto& v : vecs()) eqv("rotation", q * v3(v), rod(k, t, v), 20);
        if (l > 0) {
            A4 h{k[0] / l * std::sin((R)t / 2), k[1] / l * std::sin((R)t / 2), k[2] / l * std::sin((R)t / 2), std::cos((R)t / 2)}; eq("axis-angle", q, h);
            Vec<T, 4> aa = q.to_axis_angle_rotation(); V3 ax(aa.x, aa.y, aa.z); eqs("axis length", ax.mag(), 1); R cond = 1 / std::max<R>(std::abs(std::sin((R)t / 2)), sizeof(T) == 8 ? 1e-9L : 1e-5L);
            for (auto& v : vecs()) { A3 e = rod(k, t, v); A3 got = rod({aa.x, aa.y, aa.z}, aa.w, v); eqv("to_axis_angle", v3(got), e, 50 * cond); V3 w = q.to_angular_velocity(); eqv("to_angular_velocity", v3(rod({w.x, w.y, w.z}, w.mag(), v)), e, 50 * cond); }
            MC_CHECK(aa.w >= 0 and aa.w <= (T)6.2832, "to_axis_angle range", ctx, " angle ", aa.w);
            // fractional rotation follows the same axis
            for (R s : {0.0L, 0.25L, 0.5L, 1.0L, 2.0L}) if (th > 0) { Q f = q.rotation_scale((T)s); R half = std::acos(std::max<R>(-1, std::min<R>(1, h[3]))); R sn = std::sin(half * s), sg = std::sin((R)t / 2) < 0 ? -1 : 1; A4 e{sg * k[0] / l * sn, sg * k[1] / l * sn, sg * k[2] / l * sn, std::cos(half * s)}; eq("rotation_scale", f, e, 20 * cond); }
        } else eq("null axis", q, {0, 0, 0, 1});
    }
    // aligning directions
    for (auto& k : vecs()) for (auto& w : vecs()) {
        if (not mc::begin("align", IDX++)) continue; V3 a = v3(k), b = v3(w); if (a.is_zero() or b.is_zero()) continue; mc::state(); mc::trace(); a = a.unit(); b = b.unit(); ctx = mc::str("align ", a, " ", b); R c = (R)a.x * b.x + (R)a.y * b.y + (R)a.z * b.z; V3 n = a ^ b; if (c < -0.99L and not n.is_zero()) continue;
        Q q = Q::rotation_direction_align(a, b); eqs("align unit", q.mag(), 1); eqv("align", q * a, {b.x, b.y, b.z}, 50); eqv("align keeps axis", q * n, {n.x, n.y, n.z}, 50);
    }
}
static void functions() {
    std::vector<A4> l4; lat::tuples<4, R>(mc::tier(std::vector<R>{-1, 0, 0.5L}, std::vector<R>{-2, -0.5L, 0, 1}), [&](const A4& a) { l4.push_back(a); });
    for (R unit : {1.0L, 0.015625L, 16.0L}) for (auto& a0 : l4) {
        if (not mc::begin("exp/log/pow", IDX++)) continue; mc::state(); A4 a = sc(a0, unit); mc::trace(); Q q((T)a[0], (T)a[1], (T)a[2], (T)a[3]); ctx = lat::show(a); A4 e = lexp(a); eq("exp", std::exp(q), e, 4); eq("exp", q.exp(), e, 4);
        R m = mag(a), vm = std::sqrt(a[0] * a[0] + a[1] * a[1] + a[2] * a[2]); if (m == 0) continue;
        Q l = std::log(q); eq("exp(log q)", Q(std::exp(l)), a, 10 * std::max<R>(1, m)); eqs("real part of log", l.real(), std::log(m)); R th = std::acos(a[3] / m); if (vm > 0) { eqv("log", l.imag(), {a[0] / vm * th, a[1] / vm * th, a[2] / vm * th}, 10); eq("log", q.log(), {a[0] / vm * th, a[1] / vm * th, a[2] / vm * th, std::log(m)}, 10); } else eqs("log of real", l.imag().mag(), a[3] < 0 ? M_PIl : 0);
        // integer powers are repeated products; fractional powers compose
        A4 pw{0, 0, 0, 1}; for (int n = 0; n <= 4; ++n) { eq("integer power", std::pow(q, (T)n), pw, 50 * std::max<R>(1, mag(pw))); eq("integer power", std::pow(q, n), pw, 50 * std::max<R>(1, mag(pw))); pw = hmul(pw, a); }
        eq("reciprocal", std::pow(q, (T)-1), {-a[0] / (m * m), -a[1] / (m * m), -a[2] / (m * m), a[3] / (m * m)}, 20 * std::max<R>(1, 1 / m)); Q h = std::pow(q, (T)0.5); eq("square root", h * h, a, 20 * std::max<R>(1, m)); Q c = std::pow(q, (T)0.25); eq("fourth root", c * c, arr(h), 20); MC_CHECK(h.w >= -20 * TOL, "principal root", ctx, ": real part of the square root is ", h.w);
    }
    // nearly real quaternions: the imaginary part keeps its relative size
    for (R w : {-1.0L, 0.0L, 1.0L, 3.0L}) for (int e = 1; e <= (sizeof(T) == 8 ? 40 : 16); ++e) for (auto& v : vecs()) { if (v[0] == 0 and v[1] == 0 and v[2] == 0) continue; if (not mc::begin("nearly real", IDX++)) continue; mc::state(); R k = std::ldexp((R)1, -e); Q q((T)(v[0] * k), (T)(v[1] * k), (T)(v[2] * k), (T)w); A4 a{q.x, q.y, q.z, q.w}; ctx = lat::show(a);
        auto fine = [&](const char* key, const Q& got, const A4& want) { mc::step(); R sc = 0; for (int i = 0; i < 3; ++i) sc = std::max(sc, std::abs(want[i])); A4 g = arr(got); for (int i = 0; i < 4; ++i) if (not(std::abs(g[i] - want[i]) <= (i < 3 ? TOL * 100 * sc : TOL * 10 * (1 + std::abs(want[i]))))) { mc::fail(key, mc::str(ctx, ": ", key, " gave ", lat::show(g), " expected ", lat::show(want))); return; } };
        fine("exp", std::exp(q), lexp(a)); fine("exp", q.exp(), lexp(a)); }
    // interpolation: constant speed along the shorter arc
    auto g = group(); for (auto& k : vecs()) for (R th : {0.3L, 2.0L, -1.0L}) { A3 kk = k; if (kk[0] == 0 and kk[1] == 0 and kk[2] == 0) continue; if (k[0] >= 0 and k[1] >= 0) g.push_back(Q::rotation_from_axis_angle(v3(k), (T)th)); }
    mc::bound("slerp endpoints", g.size());
    for (size_t i = 0; i < g.size(); ++i) {
        if (not mc::begin("slerp", IDX++)) continue;
        for (size_t j = 0; j < g.size(); ++j) {
            A4 a = arr(g[i]), b = arr(g[j]); R d = 0; for (int x = 0; x < 4; ++x) d += a[x] * b[x]; bool tie = std::abs(d) < 1e-4L, par = std::abs(std::abs(d) - 1) < 1e-6L; mc::trace(); ctx = mc::str("slerp ", g[i], " ", g[j]);
            R s = d < 0 ? -1 : 1, om = std::acos(std::min<R>(1, std::abs(d))); A4 c; for (int x = 0; x < 4; ++x) c[x] = s * b[x];
            for (R t : {0.0L, 0.25L, 0.5L, 0.75L, 1.0L}) {
                Q r = g[i].slerp(g[j], (T)t); R tol = par ? (sizeof(T) == 8 ? 1e5L : 1e3L) : 100; eqs("slerp unit", r.mag(), 1, tol); if (t == 0) eq("slerp start", r, a, 20);
                if (tie) { R x = std::abs(arr(r)[0] * a[0] + arr(r)[1] * a[1] + arr(r)[2] * a[2] + arr(r)[3] * a[3]); eqs("slerp speed", x, std::cos(om * t), 1e3L); }
                else { A4 e; for (int x = 0; x < 4; ++x) e[x] = om < 1e-12L ? a[x] : (std::sin((1 - t) * om) * a[x] + std::sin(t * om) * c[x]) / std::sin(om); eq("slerp", r, e, tol); for (auto& v : {A3{1, 0, 0}, A3{0, -2, 1}}) if (t == 1) { V3 w = g[j] * v3(v); eqv("slerp end", r * v3(v), {w.x, w.y, w.z}, tol * 4); } }
            }
        }
    }
}
void mc_run() { IDX = 0; mc::bound("element type", sizeof(T) == 8 ? "double" : "float"); if (mc::part("algebra")) { algebra(); rotations(); } if (mc::part("functions")) functions(); }
