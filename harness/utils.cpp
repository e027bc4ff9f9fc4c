// C36: scalar helpers against their definitions.
#include "mc.h"
#include "lat.h"
#include <geomc/function/Dual.h>
#include <geomc/function/Utils.h>
using namespace geom;
typedef long double R; typedef __int128 I;
static uint64_t IDX; static std::string ctx;
static I ref_fdiv(I a, I b) { I q = a / b; if (a % b != 0 and (a < 0) != (b < 0)) --q; return q; }
static std::string s128(I v) { return std::to_string((long long)v); }
template <typename T> static void integers(const char* name, const std::vector<T>& vals) {
    mc::bound(std::string(name) + " values", vals.size());
    for (T a : vals) {
        if (not mc::begin(name, IDX++)) continue; mc::state();
        { bool p = false; for (int i = 0; i < 127; ++i) p = p or (I)a == ((I)1 << i); mc::step(); MC_CHECK(is_power_of_two(a) == p, "is_power_of_two", s128(a)); }
        for (T b : vals) {
            if (b == 0 or (std::is_signed<T>::value and b == (T)-1 and a == std::numeric_limits<T>::min())) continue; mc::trace(); mc::step(4); I fl = ref_fdiv(a, b), ce = -ref_fdiv(-(I)a, b), pm = (I)a - fl * b; std::string c = s128(a) + ", " + s128(b);
            MC_CHECK((I)floor_div(a, b) == fl, "floor_div", "floor_div(", c, ") is ", s128((I)floor_div(a, b)), " expected ", s128(fl)); MC_CHECK((I)ceil_div(a, b) == ce, "ceil_div", "ceil_div(", c, ") is ", s128((I)ceil_div(a, b)), " expected ", s128(ce));
            if (b > 0) { T r = positive_mod(a, b); MC_CHECK((I)r == pm, "positive_mod", "positive_mod(", c, ") is ", s128(r), " expected ", s128(pm)); I sn = ce * b; if (sn <= (I)std::numeric_limits<T>::max()) { I g = snap(a, b); MC_CHECK(g == sn, "snap", "snap(", c, ") is ", s128(g), " expected ", s128(sn)); } }
        }
    }
}
template <typename T> static void clamps(const char* name, const std::vector<T>& v) {
    for (T lo : v) for (T hi : v) if (lo <= hi) { if (not mc::begin(name, IDX++)) continue; for (T x : v) { mc::step(); T r = geom::clamp(x, lo, hi); MC_CHECK(r == (x < lo ? lo : x > hi ? hi : x), "clamp", "clamp(", x, ", ", lo, ", ", hi, ") is ", r); } }
}
template <typename T> static R rel(R a, R b) { return std::abs(a - b) / std::max<R>(1, std::abs(b)); }
template <typename T> static void reals(const char* name) {
    const R tol = sizeof(T) == 4 ? 1e-5L : 1e-13L; std::vector<T> v{-7.25, -3, -2.5, -1, -0.75, -0.1, 0, 0.1, 0.5, 1, 1.75, 3, 4, 10.3, 1000};
    for (T a : v) {
        if (not mc::begin(name, IDX++)) continue; mc::state();
        MC_CHECK(rel<T>(radians(a), (R)a * M_PIl / 180) < tol and rel<T>(degrees(a), (R)a * 180 / M_PIl) < tol, "angle units", a); MC_CHECK(rel<T>(degrees(radians(a)), a) < tol * 10, "angle units", a);
        for (T b : v) {
            mc::trace();
            if (b > 0) { R q = (R)a / b; bool edge = std::abs(q - std::round(q)) < 1e-3L * (sizeof(T) == 4) + 1e-10L; R n = std::round(q); mc::step(4); T r = positive_mod(a, b); MC_CHECK(r >= 0 and r <= b and std::abs(std::remainder((R)a - r, (R)b)) <= tol * 100 * std::max<R>(1, std::abs(a)), "positive_mod", "positive_mod(", a, ", ", b, ") is ", r);
                T f = floor_div(a, b), c = ceil_div(a, b), s = snap(a, b); if (not edge) { MC_CHECK(f == std::floor(q) and c == std::ceil(q) and rel<T>(s, std::ceil(q) * b) < tol * 10, "real division", a, " / ", b, ": ", f, " ", c, " ", s); MC_CHECK(rel<T>(r, q > 0 ? (R)a - std::floor(q) * b : (R)a - std::floor(q) * b) < tol * 100, "positive_mod", "positive_mod(", a, ", ", b, ") is ", r); } else MC_CHECK(std::abs(f - n) <= 1 and std::abs(c - n) <= 1, "real division", a, " / ", b); }
            for (T t : {(T)0, (T)0.25, (T)0.5, (T)1, (T)-1, (T)3}) { mc::step(); R e = (1 - (R)t) * a + (R)t * b; T g = mix(t, a, b); MC_CHECK(std::abs(g - e) <= tol * (std::abs(a) + std::abs(b) + 1) * 8, "mix", "mix(", t, ", ", a, ", ", b, ") is ", g); if (t == 0) MC_CHECK(g == a, "mix start", a, " ", b); if (t == 1) MC_CHECK(g == b, "mix end", a, " ", b); }
        }
    }
    // quadratic equations
    std::vector<T> k{-5, -2, -1, -0.5, 0, 0.25, 1, 2, 3, 8, (T)1e-6, (T)1e6}; mc::bound("quadratic coefficients", k.size());
    for (T a : k) for (T b : k) {
        if (not mc::begin(sizeof(T) == 4 ? "quadratic float" : "quadratic double", IDX++)) continue; mc::state();
        for (T c : k) {
            mc::step(); mc::trace(); T r[2] = {(T)77, (T)78}; bool ok = quadratic_solve(r, a, b, c); R A = a, B = b, C = c, d = B * B - 4 * A * C; bool none = (a == 0 and b == 0) or d < 0; std::string s = mc::str(a, " x^2 + ", b, " x + ", c);
            R edge = std::abs(d) / (B * B + std::abs(4 * A * C) + 1e-300L); if (edge < (sizeof(T) == 4 ? 1e-6L : 1e-14L) and d != 0) continue;
            MC_CHECK(ok == not none, "quadratic verdict", s, " returns ", ok); if (ok == none) continue; if (none) { MC_CHECK(r[0] == 77 and r[1] == 78, "quadratic untouched", s, ": results altered"); continue; }
            R x0, x1; if (a == 0) x0 = x1 = -C / B; else { R sq = std::sqrt(d), q = B >= 0 ? -0.5L * (B + sq) : -0.5L * (B - sq); x0 = q / A; x1 = q == 0 ? 0 : C / q; } R y0 = r[0], y1 = r[1]; auto near = [&](R p, R q) { return std::abs(p - q) <= tol * 100 * std::max<R>(std::abs(q), 1e-30L); };
            MC_CHECK((near(y0, x0) and near(y1, x1)) or (near(y0, x1) and near(y1, x0)), "quadratic roots", s, ": roots ", y0, ", ", y1, " expected ", x0, ", ", x1); if (d == 0 or a == 0) MC_CHECK(r[0] == r[1], "double root", s);
        }
    }
    // angles
    std::vector<R> an; for (int i = -20; i <= 20; ++i) an.push_back(i * M_PIl / 4 + 0.1L * (i % 3)); for (R x : {0.0L, 100.0L, -50.0L, 1e-3L, -1e-3L, 3.1L, -3.1L}) an.push_back(x);
    for (R x : an) { if (not mc::begin(sizeof(T) == 4 ? "angle_to float" : "angle_to double", IDX++)) continue; for (R y : an) { mc::step(); mc::trace(); T a = (T)x, b = (T)y, r = angle_to(a, b); const R t = sizeof(T) == 4 ? 1e-4L : 1e-12L; R e = std::remainder((R)b - (R)a, 2 * M_PIl); MC_CHECK(std::abs((R)r) <= M_PIl + t, "angle_to range", a, " to ", b, " is ", r); MC_CHECK(std::abs(std::remainder((R)r - e, 2 * M_PIl)) <= t, "angle_to", a, " to ", b, " is ", r, " expected ", e); } }
    // interpolation over 1-4 dimensions: every grid of distinguishing values, every lattice position
    const std::vector<T> pos{0, (T)0.25, (T)0.5, 1};
    for (int dim = 1; dim <= 4; ++dim) for (int pat = 0; pat < 3 + (dim < 4 ? (1 << dim) : 0); ++pat) {
        if (not mc::begin("interp_linear", IDX++)) continue; std::vector<T> g(1 << dim); for (int i = 0; i < (1 << dim); ++i) g[i] = pat == 0 ? (T)(i * i - 3) : pat == 1 ? (T)(i % 3) : pat == 2 ? (T)((i * 37) % 11) : (T)(i == pat - 3);
        lat::tuples_n<T>(dim, pos, [&](const std::vector<T>& s) { R e = 0; for (int i = 0; i < (1 << dim); ++i) { R w = g[i]; for (int d = 0; d < dim; ++d) w *= (i >> d) & 1 ? (R)s[d] : 1 - (R)s[d]; e += w; } mc::step(); mc::trace(); T r = interp_linear(s.data(), g.data(), dim); MC_CHECK(rel<T>(r, e) < tol * 100, "interp_linear", dim, "D at ", lat::show(s), " is ", r, " expected ", e); });
    }
    auto cr = [](int i, R s) -> R { R s2 = s * s, s3 = s2 * s, h00 = 2 * s3 - 3 * s2 + 1, h10 = s3 - 2 * s2 + s, h01 = -2 * s3 + 3 * s2, h11 = s3 - s2; return i == 0 ? -h10 / 2 : i == 1 ? h00 - h11 / 2 : i == 2 ? h01 + h10 / 2 : h11 / 2; };
    for (int dim = 1; dim <= 3; ++dim) for (int pat = 0; pat < 3 + (dim < 3 ? (1 << (2 * dim)) : 0); ++pat) {
        if (not mc::begin("interp_cubic", IDX++)) continue; int n = 1 << (2 * dim); std::vector<T> g(n); for (int i = 0; i < n; ++i) g[i] = pat == 0 ? (T)(i % 17 - 3) : pat == 1 ? (T)(i % 5) : pat == 2 ? (T)((i * 37) % 23) : (T)(i == pat - 3);
        lat::tuples_n<T>(dim, pos, [&](const std::vector<T>& s) { R e = 0; for (int i = 0; i < n; ++i) { R w = g[i]; for (int d = 0; d < dim; ++d) w *= cr((i >> (2 * d)) & 3, s[d]); e += w; } mc::step(); mc::trace(); T r = interp_cubic(s.data(), g.data(), dim); MC_CHECK(rel<T>(r, e) < tol * 100, "interp_cubic", dim, "D at ", lat::show(s), " is ", r, " expected ", e); if (dim == 1) MC_CHECK(rel<T>(interp_cubic(s[0], g.data()), e) < tol * 100, "interp_cubic", "1D"); });
    }
}
// products of sums within 1.5 ulp, where the naive formula cancels
template <typename T, typename W> static R ulps(T got, W want) { T w = (T)want; if (w == 0) return got == 0 and want == 0 ? 0 : std::abs((R)((W)got - want)) / (R)std::numeric_limits<T>::denorm_min(); T up = std::nextafter(std::abs(w), std::numeric_limits<T>::infinity()); return std::abs((R)((W)got - want)) / (R)(up - std::abs(w)); }
template <typename T, typename W> static void products(const char* name) {
    std::vector<T> v; const T e = std::numeric_limits<T>::epsilon(); for (T x : {(T)1, (T)3, (T)-1, (T)1024}) for (int k : {0, 1, -3, 5}) v.push_back(x * (1 + k * e)); v.push_back((T)0); v.push_back((T)(1 / 3.0L)); v.push_back((T)-0.1L); if (mc::thorough()) for (int k : {7, 11, -13}) v.push_back((T)0.7 * (1 + k * e));
    mc::bound(std::string(name) + " operands", v.size());
    for (T a : v) for (T b : v) {
        if (not mc::begin(name, IDX++)) continue; mc::state();
        for (T c : v) { for (T d : v) { mc::step(2); mc::trace(); W p = (W)a * b, q = (W)c * d; R u = ulps<T, W>(diff_of_products(a, b, c, d), p - q), w = ulps<T, W>(sum_of_products(a, b, c, d), p + q); MC_CHECK(u <= 1.51L, "diff_of_products", mc::str(std::hexfloat, a, "*", b, " - ", c, "*", d, ": off by "), (double)u, " ulp"); MC_CHECK(w <= 1.51L, "sum_of_products", mc::str(std::hexfloat, a, "*", b, " + ", c, "*", d, ": off by "), (double)w, " ulp"); }
            T m = multiply_add(a, b, c); mc::step(); MC_CHECK((ulps<T, W>(m, (W)a * b + c) <= 0.51L), "multiply_add", mc::str(std::hexfloat, a, "*", b, " + ", c)); }
    }
}
static void others() {
    std::vector<int> v{-7, -1, 0, 2, 5}; lat::tuples<4, int>(v, [&](const std::array<int, 4>& x) { if (not mc::begin("integer products", IDX++)) return; mc::step(3); mc::trace(); MC_CHECK(diff_of_products(x[0], x[1], x[2], x[3]) == x[0] * x[1] - x[2] * x[3] and sum_of_products(x[0], x[1], x[2], x[3]) == x[0] * x[1] + x[2] * x[3] and multiply_add(x[0], x[1], x[2]) == x[0] * x[1] + x[2], "integer products", lat::show(x)); });
    MC_CHECK(multiply_add<int64_t>((int64_t(1) << 60) + 1, 3, 5) == ((int64_t(1) << 60) + 1) * 3 + 5, "integer precision", "multiply_add loses integer precision");
    typedef std::complex<double> C; std::vector<C> z{{0, 0}, {1, 0}, {0, 1}, {-2, 3}, {0.5, -1}, {4, 4}};
    for (C a : z) for (C b : z) { if (not mc::begin("complex products", IDX++)) continue; for (C c : z) for (C d : z) { mc::step(3); mc::trace(); MC_CHECK(std::abs(diff_of_products(a, b, c, d) - (a * b - c * d)) < 1e-12 and std::abs(sum_of_products(a, b, c, d) - (a * b + c * d)) < 1e-12 and std::abs(multiply_add(a, b, c) - (a * b + c)) < 1e-12, "complex products", a, b, c, d); } }
}
void mc_run() {
    IDX = 0; auto range = [](auto lo, auto hi) { typedef decltype(lo) T; std::vector<T> o; for (long i = lo; i <= (long)hi; ++i) o.push_back((T)i); return o; };
    if (mc::part("int")) {
        integers<int8_t>("int8", range((int8_t)-128, (int8_t)127)); integers<uint8_t>("uint8", range((uint8_t)0, (uint8_t)255));
        auto wide = [](auto z) { typedef decltype(z) T; std::vector<T> o; std::set<T> s; for (int i = 0; i < (int)sizeof(T) * 8; ++i) for (int k = -2; k <= 2; ++k) { T x = (T)((typename std::make_unsigned<T>::type)1 << i) + (typename std::make_unsigned<T>::type)k; s.insert(x); s.insert((T)(0 - (typename std::make_unsigned<T>::type)x)); } for (T k = 0; k < 60; ++k) { s.insert(k); s.insert((T)(0 - k)); } for (T x : s) o.push_back(x); return o; };
        integers<int16_t>("int16", wide((int16_t)0)); integers<uint16_t>("uint16", wide((uint16_t)0)); integers<int>("int", wide((int)0)); integers<unsigned>("unsigned", wide(0u)); integers<long>("long", wide(0l)); integers<unsigned long>("unsigned long", wide(0ul));
        if (mc::thorough()) integers<short>("short range", range((short)-1500, (short)1500));
        clamps<int>("clamp int", {-3, -1, 0, 1, 2, 5}); clamps<double>("clamp double", {-3, -0.5, 0, 1e-9, 2, 1e300}); clamps<unsigned>("clamp unsigned", {0, 1, 2, 7}); others();
    }
    if (mc::part("real")) { reals<double>("double"); reals<float>("float"); }
    if (mc::part("prod")) { products<float, double>("float products"); products<double, __float128>("double products"); }
}
