// C40: samplers. Every draw of a real number ranges over a lattice of its outcomes (ends included); all combinations are enumerated through a scripted bit source.
#include "mc.h"
#include "lat.h"
#include "script.h"
#include <geomc/random/RandomTools.h>
using namespace geom;
#ifndef ET
#define ET double
#endif
typedef ET T; typedef long double R; typedef std::vector<uint32_t> W; typedef Vec<T, 3> V3; typedef Vec<T, 2> V2;
static uint64_t IDX; static constexpr bool DBL = sizeof(T) == 8; static const R EPS = DBL ? 1e-12L : 2e-5L; static const R PI_ = 3.14159265358979323846264338327950288L;
// the bits from which rand<T>() makes the numbers u (each in [0,1])
static W encode(const std::vector<double>& us) {
    W w; size_t pool = 0; int left = 0; auto coin = [&](int b) { if (left == 0) { pool = w.size(); w.push_back(0); left = 32; } w[pool] |= (uint32_t)b << (32 - left); --left; };
    for (double u : us) {
        if (u == 0) { for (int i = 0; i < (DBL ? 1022 : 126); ++i) coin(0); w.push_back(0); if (DBL) w.push_back(0); coin(0); continue; }
        bool one = u == 1; int e; double m = std::frexp(one ? 0.5 : u, &e); for (int i = 0; i < -e; ++i) coin(0); coin(1); uint64_t mant = (uint64_t)std::ldexp(2 * m - 1, 52); if (DBL) { w.push_back((uint32_t)((mant << 12) >> 32)); w.push_back((uint32_t)(mant << 12)); } else { w.push_back((uint32_t)((mant << 12) >> 32)); if (((mant << 12) >> 41) == 0) mant = 0; } if (mant == 0) coin(one);
    }
    return w;
}
static std::vector<double> even(int m) { std::vector<double> v; for (int i = 0; i < m; ++i) v.push_back((2 * i + 1) / (2.0 * m)); return v; }
static std::vector<double> ends(int m) { auto v = even(m); for (double x : {0.0, 1.0, 0.5, 1.0 / 1024, 1 - 1.0 / 1024}) v.push_back(x); return v; }
static R mag(const V3& v) { return std::sqrt((R)v.x * v.x + (R)v.y * v.y + (R)v.z * v.z); }
template <index_t N> static R magn(const Vec<T, N>& v) { R s = 0; for (int i = 0; i < N; ++i) s += (R)v[i] * v[i]; return std::sqrt(s); }
template <index_t N> static bool finite(const Vec<T, N>& v) { for (int i = 0; i < N; ++i) if (not std::isfinite(v[i])) return false; return true; }
struct Tally { std::map<std::string, std::pair<uint64_t, R>> hit; uint64_t n = 0; void in(const char* what, R share, bool yes) { auto& h = hit[what]; h.first += yes; h.second = share; } };
// run one sampler over all outcomes of `draws` draws; judge(v, s) checks one point, tally collects the distribution over the even lattice
template <index_t N, typename F, typename J, typename D> static void sampler(const char* group, const std::string& name, int draws, int m, F f, J judge, D dist, R tol) {
    if (not mc::begin(group, IDX++)) return; mc::state(); mc::trace(); std::vector<double> tail(8, 0.5625); Tally t;
    for (int pass = 0; pass < 2; ++pass) {
        auto al = pass ? even(m) : ends(std::max(2, m / 2)); std::vector<size_t> ix(draws, 0);
        for (;;) {
            std::vector<double> us; for (size_t i : ix) us.push_back(al[i]); size_t own = encode(us).size(); us.insert(us.end(), tail.begin(), tail.end()); Script r(encode(us)); r.fill = 0x90000001u; Sampler<T> s(&r); Vec<T, N> v = f(s); mc::step();
            us.resize(draws); MC_CHECK(finite(v), "a point is produced", name, " outcome ", lat::show(us), ": ", v); if (finite(v)) judge(v, name + " outcome " + lat::show(us)); if (pass and r.used <= own) { ++t.n; dist(t, v); }
            int i = 0; while (i < draws and ++ix[i] >= al.size()) ix[i++] = 0; if (i == draws) break;
        }
    }
    for (auto& h : t.hit) { R got = (R)h.second.first / t.n; MC_CHECK(std::abs(got - h.second.second) <= tol, "evenly distributed", name, ": ", h.first, " holds ", got, " of the points, not ", h.second.second); }
    MC_CHECK(t.n > 0, "accepted", name);
}
template <index_t N> static void inN(int m) {
    std::string d = mc::str(N, "D"); mc::bound(mc::str("outcomes per draw ", d), m); auto none = [](Tally&, const Vec<T, N>&) {}; const R tol = N == 1 ? 0.04L : N == 2 ? 0.03L : N == 3 ? 0.04L : 0.08L;
    auto sphere = [&](Tally& t, const Vec<T, N>& v) { R g = magn(v); for (int i = 0; i < N; ++i) { t.in(mc::str("half ", i).c_str(), 0.5L, v[i] > 0); if (N == 3) t.in(mc::str("cap ", i).c_str(), 0.25L, v[i] > g / 2); if (N == 2) t.in(mc::str("arc ", i).c_str(), 1 / 3.0L, v[i] > g / 2); } };
    sampler<N>("unit", d + " unit", N, m, [](Sampler<T>& s) { return s.template unit<N>(); }, [&](const Vec<T, N>& v, const std::string& s) { MC_CHECK(std::abs(magn(v) - 1) <= EPS, "on the sphere", s, ": ", v); }, sphere, tol);
    for (T r : {(T)0.25, (T)3, (T)1000, (T)0}) sampler<N>("unit", d + mc::str(" unit of ", r), N, m, [r](Sampler<T>& s) { return s.template unit<N>(r); }, [&](const Vec<T, N>& v, const std::string& s) { MC_CHECK(std::abs(magn(v) - r) <= EPS * r, "on the sphere", s, ": ", v); }, none, tol);
    auto ball = [&](T r) { return [=](Tally& t, const Vec<T, N>& v) { R g = magn(v); t.in("inner ball", std::pow(0.75L, N), g <= 0.75L * r); for (int i = 0; i < N; ++i) t.in(mc::str("half ", i).c_str(), 0.5L, v[i] > 0); }; };
    sampler<N>("solidball", d + " ball", N, m, [](Sampler<T>& s) { return s.template solidball<N>(); }, [&](const Vec<T, N>& v, const std::string& s) { MC_CHECK(magn(v) <= 1 + EPS, "in the ball", s, ": ", v); }, ball(1), tol);
    for (T r : {(T)0.25, (T)3, (T)1000, (T)0}) sampler<N>("solidball", d + mc::str(" ball of ", r), N, m, [r](Sampler<T>& s) { return s.template solidball<N>(r); }, [&](const Vec<T, N>& v, const std::string& s) { MC_CHECK(magn(v) <= r * (1 + EPS), "in the ball", s, ": ", v); }, [=](Tally& t, const Vec<T, N>& v) { if (r) ball(r)(t, v); }, tol);
    for (T lo : {(T)0, (T)0.5, (T)2, (T)2.75}) for (T hi : {(T)3, (T)2.75, (T)100}) sampler<N>("shell", d + mc::str(" shell ", lo, " to ", hi), N + 1, N == 1 ? m : std::max(4, m / 2), [=](Sampler<T>& s) { return s.template shell<N>(lo, hi); }, [&](const Vec<T, N>& v, const std::string& s) { R g = magn(v); MC_CHECK(g >= lo * (1 - EPS) - EPS and g <= hi * (1 + EPS), "in the shell", s, ": ", v); }, [=](Tally& t, const Vec<T, N>& v) { if (hi <= lo) return; R mid = lo + ((R)hi - lo) * 0.7L; t.in("inner shell", (std::pow(mid, N) - std::pow((R)lo, N)) / (std::pow((R)hi, N) - std::pow((R)lo, N)), magn(v) <= mid); }, N == 1 ? 0.04L : 0.13L);
    sampler<N>("box", d + " unit box", N, std::max(m, 4), [](Sampler<T>& s) { return s.template box<N>(); }, [&](const Vec<T, N>& v, const std::string& s) { for (int i = 0; i < N; ++i) MC_CHECK(v[i] >= 0 and v[i] <= 1, "in the box", s, ": ", v); }, [](Tally& t, const Vec<T, N>& v) { for (int i = 0; i < N; ++i) t.in(mc::str("half ", i).c_str(), 0.5L, v[i] < 0.5); }, 0.01L);
    for (T a : {(T)-1, (T)0.1, (T)1e6, (T)-0.3}) for (T w : {(T)2, (T)0.7, (T)0, (T)1e-3}) { Vec<T, N> lo, hi; for (int i = 0; i < N; ++i) { lo[i] = a + i * (T)0.3; hi[i] = lo[i] + w * (i + 1); } auto in = [=](const Vec<T, N>& v, const std::string& s) { for (int i = 0; i < N; ++i) MC_CHECK(v[i] >= lo[i] and v[i] <= hi[i], "in the box", s, ": ", v); }; auto ds = [=](Tally& t, const Vec<T, N>& v) { for (int i = 0; i < N; ++i) if (hi[i] - lo[i] > std::abs(lo[i]) * 1e-3) t.in(mc::str("half ", i).c_str(), 0.5L, v[i] < lo[i] + (hi[i] - lo[i]) / 2); };
        sampler<N>("box", d + mc::str(" box ", lo, " ", hi), N, std::max(m / 4 * 2, 4), [=](Sampler<T>& s) { return s.template box<N>(lo, hi); }, in, ds, 0.01L); if constexpr (N > 1) { sampler<N>("box", d + mc::str(" rect ", lo, " ", hi), N, std::max(m / 4 * 2, 4), [=](Sampler<T>& s) { return s.template box<N>(Rect<T, N>(lo, hi)); }, in, ds, 0.01L); if constexpr (N == 2) sampler<N>("box", d + mc::str(" box coordinates ", lo, " ", hi), N, m, [=](Sampler<T>& s) { return s.box(lo[0], lo[1], hi[0], hi[1]); }, in, ds, 0.01L); if constexpr (N == 3) sampler<N>("box", d + mc::str(" box coordinates ", lo, " ", hi), N, m / 2, [=](Sampler<T>& s) { return s.box(lo[0], lo[1], lo[2], hi[0], hi[1], hi[2]); }, in, ds, 0.01L); } }
}
static void in3() {
    std::vector<V3> dirs; lat::tuples<3, T>({-1, 0, 1}, [&](const std::array<T, 3>& a) { if (a[0] or a[1] or a[2]) dirs.push_back(V3(a[0], a[1], a[2])); }); for (V3 v : {V3(1, 2, 3), V3(-3, 0.5, 7), V3(0, 0, -9), V3(0, 0, 0.1), V3((T)1e-3, 0, -3), V3(5, -4, 0.01)}) dirs.push_back(v);
    const int m = mc::tier(16, 32); std::vector<T> angles{0, (T)0.01, (T)0.5, (T)(PI_ / 2), (T)2, (T)PI_};
    auto axis = [](V3 d, V3 v) { R g = mag(d); return ((R)d.x * v.x + (R)d.y * v.y + (R)d.z * v.z) / g; };
    for (T a : angles) {
        R c = std::cos((R)a); auto cap = [=](V3 d) { return [=](const V3& v, const std::string& s) { MC_CHECK(std::abs(mag(v) - 1) <= EPS, "on the sphere", s, ": ", v); MC_CHECK(axis(d, v) >= c - EPS * 4, "in the cap", s, ": ", v, " cosine ", axis(d, v), " below ", c); }; };
        sampler<3>("cap", mc::str("cap ", a), 2, m, [=](Sampler<T>& s) { return s.cap(a); }, cap(V3(0, 0, 1)), [=](Tally& t, const V3& v) { if (a > (T)0.1) { t.in("upper half", 0.5L, v.z > (1 + c) / 2); t.in("x half", 0.5L, v.x > 0); t.in("y half", 0.5L, v.y > 0); t.in("diagonal", 0.5L, v.x > v.y); } }, 0.02L);
        for (V3 d : dirs) { auto ds = [=](Tally& t, const V3& v) { if (a > (T)0.1) { t.in("upper half", 0.5L, axis(d, v) / mag(v) > (1 + c) / 2); R x[3] = {d.x, d.y, d.z}; int k = std::abs(x[0]) < std::abs(x[1]) ? (std::abs(x[0]) < std::abs(x[2]) ? 0 : 2) : (std::abs(x[1]) < std::abs(x[2]) ? 1 : 2); V3 e; e[k] = 1; V3 p = d.cross(e); t.in("side", 0.5L, p.dot(v) > 0); } };
            sampler<3>("cap", mc::str("cap about ", d, " of ", a), 2, m, [=](Sampler<T>& s) { return s.cap(d, a); }, cap(d), ds, 0.06L);
            for (T lo : {(T)0, (T)1.5}) for (T hi : {(T)2, (T)1.5}) { if (a == angles[1] or a == angles[4]) continue; sampler<3>("solidcap", mc::str("solid cap about ", d, " of ", a, " from ", lo, " to ", hi), 3, 8, [=](Sampler<T>& s) { return s.solidcap(d, a, lo, hi); }, [=](const V3& v, const std::string& s) { R g = mag(v); MC_CHECK(g >= lo * (1 - EPS) - EPS and g <= hi * (1 + EPS), "in the shell", s, ": ", v); MC_CHECK(g == 0 or axis(d, v) / g >= c - EPS * 8, "in the cap", s, ": ", v); }, [=](Tally& t, const V3& v) { if (hi > lo) { R mid = lo + ((R)hi - lo) * 0.8L; t.in("inner part", (mid * mid * mid - (R)lo * lo * lo) / ((R)hi * hi * hi - (R)lo * lo * lo), mag(v) <= mid); } ds(t, v); }, 0.1L); }
        }
    }
    for (V3 n : dirs) for (T r : {(T)1, (T)0, (T)5}) sampler<3>("oriented_disk", mc::str("disk of normal ", n, " radius ", r), 2, m, [=](Sampler<T>& s) { return s.oriented_disk(n, r); }, [=](const V3& v, const std::string& s) { MC_CHECK(mag(v) <= r * (1 + EPS), "in the disk", s, ": ", v); MC_CHECK(std::abs(axis(n, v)) <= EPS * 4 * std::max((R)1, (R)r), "in the plane", s, ": ", v); }, [=](Tally& t, const V3& v) { if (r) { t.in("inner disk", 0.5625L, mag(v) <= 0.75L * r); } }, 0.03L);
}
static void in2() {
    const int m = mc::tier(32, 128);
    sampler<2>("disk", "disk", 2, m, [](Sampler<T>& s) { return s.disk(); }, [](const V2& v, const std::string& s) { MC_CHECK(magn(v) <= 1 + EPS, "in the disk", s, ": ", v); }, [](Tally& t, const V2& v) { t.in("inner disk", 0.25L, magn(v) <= 0.5L); }, 0.02L);
    for (T r : {(T)0, (T)0.5, (T)7}) sampler<2>("disk", mc::str("disk ", r), 2, m, [=](Sampler<T>& s) { return s.disk(r); }, [=](const V2& v, const std::string& s) { MC_CHECK(magn(v) <= r * (1 + EPS), "in the disk", s, ": ", v); }, [=](Tally& t, const V2& v) { if (r) t.in("inner disk", 0.25L, magn(v) <= 0.5L * r); }, 0.02L);
    std::vector<T> an{0, (T)0.5, (T)-1, (T)2, (T)-2.5, (T)3};
    for (T a : an) for (T b : an) { if (b < a) continue; auto off = [=](const V2& v) { R mid = ((R)a + b) / 2, d = std::atan2((R)v.y, (R)v.x) - mid; while (d > PI_) d -= 2 * PI_; while (d < -PI_) d += 2 * PI_; return d; }; R half = ((R)b - a) / 2;
        auto ang = [=](const V2& v, const std::string& s) { MC_CHECK(std::abs(off(v)) <= half + EPS * 4, "in the arc", s, ": ", v); };
        sampler<2>("arc", mc::str("arc ", a, " to ", b), 1, 64, [=](Sampler<T>& s) { return s.arc(a, b); }, [=](const V2& v, const std::string& s) { MC_CHECK(std::abs(magn(v) - 1) <= EPS, "on the circle", s, ": ", v); ang(v, s); }, [=](Tally& t, const V2& v) { if (half > 0) t.in("first half", 0.5L, off(v) < 0); }, 0.02L);
        for (T lo : {(T)0, (T)1, (T)2.5}) for (T hi : {(T)3, (T)2.5}) sampler<2>("solidarc", mc::str("solid arc ", a, " to ", b, " from ", lo, " to ", hi), 2, m, [=](Sampler<T>& s) { return s.solidarc(a, b, lo, hi); }, [=](const V2& v, const std::string& s) { R g = magn(v); MC_CHECK(g >= lo * (1 - EPS) - EPS and g <= hi * (1 + EPS), "between the radii", s, ": ", v); if (g > 1e-3L) ang(v, s); }, [=](Tally& t, const V2& v) { if (hi > lo) { R mid = lo + ((R)hi - lo) * 0.7L; t.in("inner part", (mid * mid - (R)lo * lo) / ((R)hi * hi - (R)lo * lo), magn(v) <= mid); } if (half > 0) t.in("first half", 0.5L, off(v) < 0); }, 0.04L); }
}
void mc_run() {
    IDX = 0; mc::bound("element type", DBL ? "double" : "float"); inN<2>(mc::tier(32, 64)); inN<3>(mc::tier(12, 20)); inN<4>(mc::tier(6, 10)); inN<5>(mc::tier(4, 6)); in2(); in3();
}
