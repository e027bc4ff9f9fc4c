// C34: orthogonal bases. Closed forms in long double, an exact quadrature on the sphere, every order up to a bound, on the real code.
#include "mc.h"
#include "lat.h"
#include <complex>
#include <geomc/linalg/Vec.h>
#include <geomc/linalg/Quaternion.h>
#include <geomc/function/SphericalHarmonics.h>
using namespace geom;
#ifndef ET
#define ET double
#endif
typedef ET T; typedef long double R; typedef Vec<T, 3> V3;
static uint64_t IDX; static constexpr bool DBL = sizeof(T) == 8; static const R TOL = DBL ? 1e-9L : 2e-3L; static const R PI_ = 3.14159265358979323846264338327950288L;
static bool near(R a, R b, R s = 1) { return std::abs(a - b) <= TOL * std::max((R)1, s); }
typedef std::vector<R> Poly;
static R binom(int n, int k) { R r = 1; for (int i = 1; i <= k; ++i) r = r * (n - k + i) / i; return r; }
static Poly legpoly(int l) { Poly p(l + 1, 0); for (int k = 0; 2 * k <= l; ++k) p[l - 2 * k] = (k & 1 ? -1 : 1) * binom(l, k) * binom(2 * l - 2 * k, l) / std::pow((R)2, l); return p; }
static R pev(const Poly& p, R x) { R r = 0; for (size_t i = p.size(); i-- > 0;) r = r * x + p[i]; return r; }
static R leg(int l, int m, R x) { static std::map<std::pair<int, int>, Poly> memo; auto& p = memo[{l, m}]; if (p.empty()) { p = legpoly(l); for (int i = 0; i < m; ++i) { Poly q; for (size_t k = 1; k < p.size(); ++k) q.push_back(p[k] * k); p = q; } if (p.empty()) p = {0}; } R v = pev(p, x); R s = m ? std::pow(std::max((R)0, 1 - x * x), (R)m / 2) : 1; return (m & 1 ? -1 : 1) * s * v; }
static R ylm(int l, int m, R x, R az) { int a = std::abs(m); R k = (2 * l + 1) / (4 * PI_); for (int i = l - a + 1; i <= l + a; ++i) k /= i; k = std::sqrt(k) * leg(l, a, x); return m == 0 ? k : m > 0 ? k * std::sqrt((R)2) * std::cos(m * az) : k * std::sqrt((R)2) * std::sin(a * az); }
struct Q { R x, az, w; V3 d; };
static std::vector<std::pair<R, R>> gauss(int n) { std::vector<std::pair<R, R>> v; Poly p = legpoly(n); for (int i = 0; i < n; ++i) { R x = std::cos(PI_ * (i + 0.75L) / (n + 0.5L)), d = 1; for (int k = 0; k < 60; ++k) { R f = 0; R a = 1, b = x; for (int j = 1; j < n; ++j) { R c = ((2 * j + 1) * x * b - j * a) / (j + 1); a = b; b = c; } f = b; d = n * (x * b - a) / (x * x - 1); x -= f / d; } v.push_back({x, 2 / ((1 - x * x) * d * d)}); } return v; }
static const std::vector<Q>& sphere() { static std::vector<Q> q; if (q.empty()) { const int n = 14, a = 28; for (auto [x, w] : gauss(n)) for (int j = 0; j < a; ++j) { R az = 2 * PI_ * (j + 0.5L) / a - PI_, s = std::sqrt(1 - x * x); q.push_back({x, az, w * 2 * PI_ / a, V3((T)(s * std::cos(az)), (T)(s * std::sin(az)), (T)x)}); } } return q; }
static std::vector<V3> dirs() { std::vector<V3> d; lat::tuples<3, T>({-1, 0, 1}, [&](const std::array<T, 3>& a) { if (a[0] or a[1] or a[2]) d.push_back(V3(a[0], a[1], a[2])); }); for (V3 v : {V3(1, 2, 3), V3(-3, 0.5, 7), V3(0, 0, -9), V3(0, 0, 0.1), V3((T)1e-5, 0, -3), V3(5, -4, 0.01), V3(0.3, -0.7, 0.65)}) d.push_back(v); return d; }
static R cosalt(V3 d) { return (R)d.z / std::sqrt((R)d.x * d.x + (R)d.y * d.y + (R)d.z * d.z); }
static R azi(V3 d) { return std::atan2((R)d.y, (R)d.x); }
static R dotp(V3 a, V3 b) { R p = 0, x = 0, y = 0; for (int i = 0; i < 3; ++i) { p += (R)a[i] * b[i]; x += (R)a[i] * a[i]; y += (R)b[i] * b[i]; } return p / std::sqrt(x * y); }
static bool go(const char* g) { if (not mc::begin(g, IDX++)) return false; mc::state(); mc::trace(); return true; }
static void polys() {
    const int top = mc::tier(12, 20); mc::bound("polynomial order", top);
    for (int n = 0; n <= top; ++n) for (int i = -48; i <= 48; ++i) { if (not go("polynomials")) continue; T x = (T)i / 32; R xr = x, sc = 1; if (i < -32 or i > 32) sc = std::pow((R)2 * std::abs(xr) + 1, n); std::string s = mc::str("order ", n, " at ", x); mc::step(4);
        R p = pev(legpoly(n), x); if (n <= 14) MC_CHECK(near(legendre(n, x), p, sc), "legendre", s, ": ", legendre(n, x), " not ", p); else if (std::abs(i) <= 32) MC_CHECK(std::abs(legendre(n, x)) <= 1 + TOL, "legendre bound", s);
        if (n <= 13) { R in = n == 0 ? xr + 1 : (pev(legpoly(n + 1), x) - pev(legpoly(n - 1), x)) / (2 * n + 1); Poly q = legpoly(n); R ref = 0, xp = xr, mp = -1; for (size_t k = 0; k < q.size(); ++k) { ref += q[k] * (xp - mp) / (k + 1); xp *= xr; mp *= -1; } (void)in; MC_CHECK(near(legendre_integral(n, x), ref, sc), "legendre_integral", s, ": ", legendre_integral(n, x), " not ", ref); }
        std::complex<R> c(xr, 0), r = std::sqrt(c * c - (R)1), z = c + r, w = c - r; R t = ((std::pow(z, n) + std::pow(w, n)) / (R)2).real(), u = std::abs(z - w) < 1e-12L ? (n + 1) * (xr < 0 and n & 1 ? -1 : 1) : ((std::pow(z, n + 1) - std::pow(w, n + 1)) / (z - w)).real();
        MC_CHECK(near(chebyshev(1, n, x), t, sc * (n + 1)), "chebyshev 1", s, ": ", chebyshev(1, n, x), " not ", t); MC_CHECK(near(chebyshev(2, n, x), u, sc * (n + 1)), "chebyshev 2", s, ": ", chebyshev(2, n, x), " not ", u);
        if (n <= 10 and std::abs(i) <= 32) for (int m = 0; m <= n; ++m) { R a = leg(n, m, x), sz = 1; for (int k = 1; k <= m; ++k) sz *= n + k; mc::step(); MC_CHECK(near(legendre(n, m, x), a, sz), "associated legendre", s, " m ", m, ": ", legendre(n, m, x), " not ", a); }
    }
}
template <index_t B> struct Chk {
    typedef SphericalHarmonics<T, B> S; typedef ZonalHarmonics<T, B> Z; int n; std::string s;
    std::vector<R> co(const S& f) { std::vector<R> c; for (int l = 0; l < n; ++l) for (int m = -l; m <= l; ++m) c.push_back(f.coeff(l, m)); return c; }
    R ref(const std::vector<R>& c, R x, R az) { R r = 0; int k = 0; for (int l = 0; l < n; ++l) for (int m = -l; m <= l; ++m) r += c[k++] * ylm(l, m, x, az); return r; }
    S fn(int seed) { S f(n); uint32_t u = seed * 7919 + 3; for (int l = 0; l < n; ++l) for (int m = -l; m <= l; ++m) { u = u * 1664525u + 1013904223u; f.coeff(l, m) = (T)((int)(u >> 24) % 17 - 8) / 4; } return f; }
    Z zf(int seed) { Z f(n); uint32_t u = seed * 104729 + 5; for (int l = 0; l < n; ++l) { u = u * 1664525u + 1013904223u; f.coeff(l) = (T)((int)(u >> 24) % 15 - 7) / 4 + (T)0.125; } return f; }
    R zref(const Z& z, R x, int k = -1) { R r = 0; for (int l = 0; l < (k < 0 ? n : k); ++l) r += z.coeff(l) * leg(l, 0, x); return r; }
    void run(int bands) {
        n = bands; s = mc::str(B ? "static" : "dynamic", " bands ", n); auto D = dirs(); R big = 4 * n * n;
        if (go("basis")) { S f(n); MC_CHECK(f.bands() == n and f.size() == n * n, "size", s, " ", f.bands(), " ", f.size()); for (R c : co(f)) MC_CHECK(c == 0, "new function is zero", s); S g; MC_CHECK(g.bands() == (B ? B : 1), "default bands", s); for (int i = 0; i < g.size(); ++i) MC_CHECK(g.coeffs[i] == 0, "default function is zero", s); MC_CHECK(g.get() == &g.coeffs[0], "get", s); f.coeff(n - 1, 1 - n) = 3; f.clear(); for (R c : co(f)) MC_CHECK(c == 0, "clear", s); Z z; MC_CHECK(z.bands() == (B ? B : 1) and z.coeff(0) == 0, "default zonal", s); }
        for (int l = 0; l < n; ++l) for (int m = -l; m <= l; ++m) {
            if (not go("basis")) continue; S f(n); f.coeff(l, m) = 1; std::string w = mc::str(s, " Y(", l, ",", m, ")");
            for (V3 d : D) { R y = ylm(l, m, cosalt(d), azi(d)); mc::step(4); MC_CHECK(near(f.eval(d), y, big), "eval", w, " at ", d, ": ", f.eval(d), " not ", y); T alt = (T)std::acos(cosalt(d)), az = (T)azi(d); R y2 = ylm(l, m, std::cos((R)alt), az); MC_CHECK(near(f.eval(alt, az), y2, big), "eval by angles", w, " at ", d); MC_CHECK(near(spherical_harmonic_coeff(l, m, (T)cosalt(d), az), ylm(l, m, (T)cosalt(d), az), big), "spherical_harmonic_coeff", w, " at ", d, ": ", spherical_harmonic_coeff(l, m, (T)cosalt(d), az), " not ", y); S b = S::basis(d, n); MC_CHECK(near(b.coeff(l, m), y, big), "basis", w, " at ", d, ": ", b.coeff(l, m), " not ", y); S pr(n); pr.coeff(l, m) = (T)0.5; pr.project(alt, az, (T)2); MC_CHECK(near(pr.coeff(l, m), y2 * 2 + 0.5L, big), "project adds a sample", w, " at ", d); }
            if (n <= 6) for (int l2 = 0; l2 <= l; ++l2) for (int m2 = -l2; m2 <= l2; ++m2) { S g(n); g.coeff(l2, m2) = 1; R in = 0; for (auto& q : sphere()) in += q.w * f.eval(q.d) * g.eval(q.d); mc::step(sphere().size()); MC_CHECK(near(in, l == l2 and m == m2, 10), "orthonormal", w, " with (", l2, ",", m2, "): ", in); MC_CHECK(f.dot(g) == (l == l2 and m == m2), "dot", w); }
        }
        for (int seed = 1; seed <= mc::tier(2, 8); ++seed) {
            if (not go("algebra")) continue; std::string w = mc::str(s, " seed ", seed); S f = fn(seed), g = fn(seed + 50); Z z = zf(seed), k = zf(seed + 9); auto cf = co(f), cg = co(g); R c0 = seed * 0.5L - 3;
            // projecting samples over the sphere recovers the coefficients
            S pr(n); for (auto& q : sphere()) pr.project(q.d, (T)(q.w * ref(cf, q.x, q.az))); mc::step(sphere().size()); for (int i = 0; i < n * n; ++i) MC_CHECK(near(pr.coeffs[i], cf[i], 20), "projection recovers", w, " coefficient ", i, ": ", pr.coeffs[i], " not ", cf[i]);
            R in = 0; for (auto& q : sphere()) in += q.w * ref(cf, q.x, q.az) * ref(cg, q.x, q.az); MC_CHECK(near(f.dot(g), in, big * 10), "dot is the inner product", w, ": ", f.dot(g), " not ", in);
            S sum = f + g, pl = f, sc = f, dv = f, bias = f, ng = f, cv = f, nm = f; pl += g; sc *= (T)c0; dv /= (T)-4; bias += (T)c0; S& ref_ng = -ng; MC_CHECK(&ref_ng == &ng, "negation", w); cv.convolve(k); nm.normalize(); R f00 = cf[0] * std::sqrt(4 * PI_); mc::step(8);
            for (int i = 0; i < n * n; ++i) { S q = f, r = f; q *= q.coeffs[i]; if (cf[i] != 0) r /= r.coeffs[i]; mc::step(2); for (int j = 0; j < n * n; ++j) MC_CHECK(near(q.coeffs[j], cf[j] * cf[i], std::max(big * big, (R)1)) and (cf[i] == 0 or near(r.coeffs[j], cf[j] / cf[i], std::max(big / std::abs(cf[i]), (R)1))), "scale by own coefficient", w, " coefficient ", i, " at ", j, ": ", q.coeffs[j], " and ", r.coeffs[j]); }
            S fz(z); Z zs(f), zc = z; zc.convolve(k); S cz(zc); std::vector<R> avg;
            for (V3 d : D) { R x = cosalt(d), a = azi(d), v = ref(cf, x, a), u = ref(cg, x, a); mc::step(9);
                MC_CHECK(near(f.eval(d), v, big), "eval", w, " at ", d); MC_CHECK(near(sum.eval(d), u + v, big), "+", w, " at ", d, ": ", sum.eval(d), " not ", u + v); MC_CHECK(near(pl.eval(d), u + v, big), "+=", w); MC_CHECK(near(sc.eval(d), v * c0, big), "*=", w); MC_CHECK(near(dv.eval(d), v / -4, big), "/=", w); MC_CHECK(near(bias.eval(d), v + c0, big), "+= constant", w, " at ", d, ": ", bias.eval(d), " not ", v + c0); MC_CHECK(near(ng.eval(d), -v, big), "negation", w); if (cf[0] != 0) MC_CHECK(near(nm.eval(d), v / f00, big), "normalize", w, " at ", d, ": ", nm.eval(d), " not ", v / f00); else MC_CHECK(near(nm.eval(d), v, big), "normalize a function of zero integral", w);
                MC_CHECK(near(z.eval((T)x), zref(z, (T)x), big), "zonal eval", w, ": ", z.eval((T)x), " not ", zref(z, (T)x)); MC_CHECK(near(fz.eval(d), zref(z, x), big), "from zonal", w, " at ", d, ": ", fz.eval(d), " not ", zref(z, x));
                R cs = 0, czr = 0, rot = 0; for (auto& q : sphere()) { R y = dotp(q.d, d); R kk = zref(k, y); cs += q.w * ref(cf, q.x, q.az) * kk; czr += q.w * zref(z, q.x) * kk; } for (int j = 0; j < 32; ++j) rot += ref(cf, x, j * PI_ / 16) / 32;
                MC_CHECK(near(cv.eval(d), cs, big * 10), "convolve", w, " at ", d, ": ", cv.eval(d), " not ", cs); MC_CHECK(near(zc.eval((T)x), czr, big * 10), "zonal convolve", w, " at ", d, ": ", zc.eval((T)x), " not ", czr); MC_CHECK(near(zs.eval((T)x), rot, big), "zonal average", w, " at ", d, ": ", zs.eval((T)x), " not ", rot);
                S o(z, d.unit()); for (V3 e : D) { mc::step(); MC_CHECK(near(o.eval(e), zref(z, dotp(d, e)), big), "re-oriented zonal", w, " axis ", d, " at ", e, ": ", o.eval(e), " not ", zref(z, dotp(d, e))); }
            }
            R sd = 0; for (int l = 0; l < n; ++l) sd += (R)z.coeff(l) * k.coeff(l); MC_CHECK(near(z.dot(k), sd, big), "zonal dot", w); { ZonalHarmonics<T, 0> few(1); few.coeff(0) = 3; MC_CHECK(near(z.dot(few), 3 * (R)z.coeff(0), big) and near(few.dot(z), 3 * (R)z.coeff(0), big), "zonal dot of different sizes", w); }
            // kernels with fewer and more bands
            for (int kb = 1; kb <= n + 2; ++kb) { ZonalHarmonics<T, 0> few(kb); for (int l = 0; l < kb; ++l) few.coeff(l) = (T)(l + 1) / 2; { ZonalHarmonics<T, 0> zz(n); for (int l = 0; l < n; ++l) zz.coeff(l) = z.coeff(l); zz.convolve(few); mc::step(); MC_CHECK(zz.bands() == n, "zonal convolve band count", w); for (int l = 0; l < n; ++l) { R want = l < kb ? (R)z.coeff(l) * (l + 1) / 2 * 4 * PI_ / (2 * l + 1) : 0; MC_CHECK(near(zz.coeff(l), want, big), "zonal convolve with another band count", w, " kernel bands ", kb, " band ", l, ": ", zz.coeff(l), " not ", want); } } S h = f; h.convolve(few); S fs(few), fo(few, V3(0, 0, 1)); mc::step(3); for (int l = 0; l < fs.bands(); ++l) for (int m = -l; m <= l; ++m) { if (l < n) { R want = l < kb ? cf[l * l + l + m] * (l + 1) / 2 * 4 * PI_ / (2 * l + 1) : 0; MC_CHECK(near(h.coeff(l, m), want, big), "convolve with another band count", w, " kernel bands ", kb, " (", l, ",", m, ")"); } R y = l < kb and m == 0 ? std::sqrt(4 * PI_ / (2 * l + 1)) * (l + 1) / 2 : 0; MC_CHECK(near(fs.coeff(l, m), y, big) and near(fo.coeff(l, m), y, big), "from zonal of another band count", w, " zonal bands ", kb, " (", l, ",", m, "): ", fs.coeff(l, m), " ", fo.coeff(l, m), " not ", y); } }
            // repeated convolution
            for (int t = 0; t <= 3; ++t) { Z df = z; df.diffuse((T)t); mc::step(); Z rep = z; for (int j = 1; j < t; ++j) rep.convolve(z); for (int l = 0; l < n; ++l) { R want = t == 0 ? (2 * l + 1) / (4 * PI_) : (R)rep.coeff(l); if (z.coeff(l) == 0) continue; MC_CHECK(near(df.coeff(l), want, std::max(big, std::abs(want))), "diffuse", w, " t ", t, " band ", l, ": ", df.coeff(l), " not ", want); } }
            { Z ps = z; for (int l = 0; l < n; ++l) ps.coeff(l) = std::abs(ps.coeff(l)); Z hf = ps; hf.diffuse((T)0.5); Z tw = hf; tw.convolve(hf); for (int l = 0; l < n; ++l) MC_CHECK(near(tw.coeff(l), ps.coeff(l), big), "half a convolution, twice", w, " band ", l); }
        }
        if (go("zonal functions")) {
            auto g = gauss(14); 
            for (int order = -1; order <= n + 1; ++order) { if (order == 0) continue; Z z = zf(3); z.generate_lambertian(order); mc::step(); int ct = order < 1 ? n : std::min(order, n); for (int l = 0; l < n; ++l) { R want = 0; for (auto [x, w] : g) { R u = (x + 1) / 2; want += w / 2 * u * leg(l, 0, u); } want *= (2 * l + 1) / (R)2; if (l >= ct) want = 0; MC_CHECK(near(z.coeff(l), want, 4), "lambertian", s, " order ", order, " band ", l, ": ", z.coeff(l), " not ", want); } }
            for (int i = -18; i <= 18; ++i) { T c = (T)i / 16; R cc = std::max((R)-1, std::min((R)1, (R)c)); Z z = zf(4); z.generate_spot(c); mc::step(); for (int l = 0; l < n; ++l) { R want = 0; for (auto [x, w] : g) { R u = cc + (x + 1) * (1 - cc) / 2; want += w * (1 - cc) / 2 * leg(l, 0, u); } want *= (2 * l + 1) / (R)2; MC_CHECK(near(z.coeff(l), want, 4), "spot", s, " cosine ", c, " band ", l, ": ", z.coeff(l), " not ", want); }
                if (std::abs(i) <= 16) { Z p(n); p.project(c, (T)3); for (int l = 0; l < n; ++l) MC_CHECK(near(p.coeff(l), 3 * leg(l, 0, c), 4), "zonal project", s, " at ", c, " band ", l, ": ", p.coeff(l)); S t(n); for (int m = 0; m < n; ++m) legendre(&t, m, c); for (int l = 0; l < n; ++l) for (int m = 0; m <= l; ++m) { R a = leg(l, m, c), sz = 1; for (int k = 1; k <= m; ++k) sz *= l + k; MC_CHECK(near(t.coeff(l, m), a, sz) and near(t.coeff(l, -m), a, sz), "legendre table", s, " at ", c, " (", l, ",", m, ")"); } } }
        }
    }
};
/// many bands, away from the poles' rounding: every coefficient's profile, and the stock zonal functions
static void many(int top) {
    mc::bound("bands of the closed forms", top); auto g = gauss(20);
    for (int n = 7; n <= top; ++n) {
        if (not go("many bands")) continue; std::string s = mc::str("bands ", n); ZonalHarmonics<T, 0> z(n); z.generate_lambertian(); const R tol = DBL ? 1e-8L : 2e-2L;
        // (the integrals by Gauss quadrature on [0,1] are exact up to order 39)
        for (int l = 0; l < n; ++l) { R want = 0; for (auto [x, w] : g) { R u = (x + 1) / 2; want += w / 2 * u * leg(l, 0, u); } want *= (2 * l + 1) / (R)2; mc::step(); MC_CHECK(std::abs(z.coeff(l) - want) <= tol, "lambertian", s, " band ", l, ": ", z.coeff(l), " not ", want); }
        for (int i : {-14, -5, 0, 3, 11}) { T c = (T)i / 16; z.generate_spot(c); for (int l = 0; l < n; ++l) { R want = 0; for (auto [x, w] : g) { R u = c + (x + 1) * (1 - (R)c) / 2; want += w * (1 - (R)c) / 2 * leg(l, 0, u); } want *= (2 * l + 1) / (R)2; mc::step(); MC_CHECK(std::abs(z.coeff(l) - want) <= tol, "spot", s, " cosine ", c, " band ", l, ": ", z.coeff(l), " not ", want); } }
        for (V3 d : {V3(1, 2, 3), V3(-3, (T)0.5, 2), V3((T)0.3, (T)-0.7, (T)0.65), V3(1, 1, 0), V3(0, -4, -3)}) for (int l = std::max(0, n - 2); l < n; ++l) for (int m = -l; m <= l; ++m) {
            SphericalHarmonics<T, 0> f(n); f.coeff(l, m) = 1; R y = ylm(l, m, cosalt(d), azi(d)); mc::step(2); MC_CHECK(std::abs(f.eval(d) - y) <= tol * 4, "eval", s, " Y(", l, ",", m, ") at ", d, ": ", f.eval(d), " not ", y); R k = spherical_harmonic_coeff(l, m, (T)cosalt(d), (T)azi(d)); MC_CHECK(std::abs(k - y) <= tol * 4, "coefficient", s, " Y(", l, ",", m, ") at ", d, ": ", k, " not ", y);
            SphericalHarmonics<T, 0> p(n); p.project(d, (T)2); MC_CHECK(std::abs(p.coeff(l, m) - 2 * y) <= tol * 8, "project", s, " Y(", l, ",", m, ") at ", d, ": ", p.coeff(l, m), " not ", 2 * y);
        }
    }
}
void mc_run() {
    IDX = 0; mc::bound("element type", DBL ? "double" : "float"); polys(); const int top = mc::tier(6, 8); mc::bound("bands", top); for (int n = 1; n <= top; ++n) { Chk<0> c; c.run(n); }
    many(mc::tier(12, 16));
    { Chk<1> c; c.run(1); } { Chk<2> c; c.run(2); } { Chk<3> c; c.run(3); } { Chk<5> c; c.run(5); }
}
