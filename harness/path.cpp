// C35: piecewise paths, judged by what a knotted path must satisfy (no formula of the blend is modelled).
#include "mc.h"
#include "lat.h"
#include <geomc/function/Path.h>
using namespace geom;
#ifndef ET
#define ET double
#endif
typedef ET T; typedef long double R;
static uint64_t IDX; static const R TOL = sizeof(T) == 8 ? 1e-10L : 2e-3L;
template <index_t N> struct Chk {
    typedef Vec<T, N> V; typedef Ray<T, N> Kn;
    static bool near(V a, V b, R s = 1) { R m = 0; for (int i = 0; i < N; ++i) m = std::max(m, std::abs((R)a[i] - b[i])); return m <= TOL * s; }
    static Path<T, N> mk(const std::vector<Kn>& k) { Path<T, N> p; for (auto& r : k) p.appendKnot(r.origin, r.direction); return p; }
    static void check(const std::vector<Kn>& k, const std::string& s) {
        mc::state(); mc::trace(); Path<T, N> p = mk(k); size_t n = k.size(); MC_CHECK(p.knots.size() == n, "knots", s);
        if (n == 0) { MC_CHECK(p.eval((T)0.5) == V(), "empty", s); return; }
        for (size_t i = 0; i < n; ++i) {
            mc::step(); V v = p.eval((T)i); MC_CHECK(near(v, k[i].origin), "knot position", s, ": at ", i, " is ", v, " not ", k[i].origin);
            // the path leaves and arrives along the tangent: one sided differences
            const T h = sizeof(T) == 8 ? 1e-4 : 1e-2; const R slack = sizeof(T) == 8 ? 1e4L : 1e2L; V f = (p.eval((T)i + h) - v) / h, b = (v - p.eval((T)i - h)) / h; mc::step(2);
            MC_CHECK(near(f, k[i].direction, slack), "tangent after knot", s, ": at ", i, " is ", f, " not ", k[i].direction); MC_CHECK(near(b, k[i].direction, slack), "tangent before knot", s, ": at ", i, " is ", b, " not ", k[i].direction);
        }
        for (T t : {(T)-3, (T)-1, (T)-0.5, (T)-0.25}) { mc::step(); V a = p.eval(t), e = k[0].origin + k[0].direction * t; MC_CHECK(near(a, e), "before the start", s, ": at ", t, " is ", a, " not ", e); T u = (T)(n - 1) - t; V b = p.eval(u), g = k[n - 1].origin + k[n - 1].direction * (-t); MC_CHECK(near(b, g), "past the end", s, ": at ", u, " is ", b, " not ", g); }
        std::vector<Kn> rv; for (size_t i = n; i-- > 0;) rv.push_back(Kn(k[i].origin, -k[i].direction)); Path<T, N> q = mk(rv); V off; for (int i = 0; i < N; ++i) off[i] = (T)(i * 2 + 1); std::vector<Kn> mv; for (auto& r : k) mv.push_back(Kn(r.origin * (T)2 + off, r.direction * (T)2)); Path<T, N> m = mk(mv);
        for (size_t i = 0; i + 1 < n; ++i) {
            Path<T, N> seg = mk({k[i], k[i + 1]}); V prev = p.eval((T)i); R len = 0; for (int c = 0; c < N; ++c) len += std::abs((R)k[i].origin[c]) + std::abs((R)k[i + 1].origin[c]) + std::abs((R)k[i].direction[c]) + std::abs((R)k[i + 1].direction[c]);
            bool straight = near(k[i].direction, k[i + 1].direction) and near(k[i].origin + k[i].direction, k[i + 1].origin);
            for (int j = 1; j <= 16; ++j) {
                T t = (T)i + (T)j / 16; V a = p.eval(t); mc::step(5); 
                MC_CHECK(near(a, q.eval((T)(n - 1) - t), 10 + len), "reversal", s, ": at ", t); MC_CHECK(near(a * (T)2 + off, m.eval(t), 10 + len), "similarity", s, ": at ", t); MC_CHECK(near(a, seg.eval((T)j / 16), 10 + len), "locality", s, ": at ", t, " depends on other knots");
                for (int c = 0; c < N; ++c) MC_CHECK(std::abs((R)a[c] - prev[c]) <= 0.4L * (1 + len), "continuity", s, ": jumps near ", t); prev = a;
                if (straight) MC_CHECK(near(a, k[i].origin + k[i].direction * (t - (T)i), 10 + len), "straight segment", s, ": at ", t, " is ", a);
                // the blend of two tangent lines stays within their span, coordinate by coordinate
                T u = (T)j / 16; V l0 = k[i].origin + k[i].direction * u, l1 = k[i + 1].origin + k[i + 1].direction * (u - 1); for (int c = 0; c < N; ++c) MC_CHECK(a[c] >= std::min(l0[c], l1[c]) - TOL * (10 + len) and a[c] <= std::max(l0[c], l1[c]) + TOL * (10 + len), "blend", s, ": at ", t, " leaves its two tangent lines");
            }
        }
    }
    static void run(int maxk, const std::vector<Kn>& al) {
        mc::bound(mc::str("knots ", N, "D"), maxk); mc::bound(mc::str("knot alphabet ", N, "D"), al.size());
        for (int n = 0; n <= maxk; ++n) { std::vector<int> ix(al.size()); std::iota(ix.begin(), ix.end(), 0); auto go = [&](const std::vector<int>& c) { if (not mc::begin(N == 2 ? "paths 2D" : N == 3 ? "paths 3D" : "paths 4D", IDX++)) return; std::vector<Kn> k; std::string s; for (int i : c) { k.push_back(al[i]); s += mc::str(al[i]) + " "; } check(k, s); }; if (n == 0) go({}); else lat::tuples_n<int>(n, ix, go); }
    }
};
void mc_run() {
    IDX = 0; mc::bound("element type", sizeof(T) == 8 ? "double" : "float"); typedef Vec<T, 2> V2; typedef Vec<T, 3> V3;
    std::vector<Ray<T, 2>> a{{V2(0, 0), V2(1, 0)}, {V2(1, 0), V2(1, 0)}, {V2(2, -1), V2(0, 0)}, {V2(-1, 3), V2(2, -1)}, {V2(1, 1), V2(-1, 0.5)}, {V2(2, 0), V2(1, 0)}}; Chk<2>::run(mc::tier(4, 5), a);
    std::vector<Ray<T, 3>> b{{V3(0, 0, 1), V3(1, 0, 0)}, {V3(1, 0, 1), V3(1, 0, 0)}, {V3(2, -1, 0), V3(0, 0, 0)}, {V3(-1, 3, 4), V3(2, -1, 1)}}; Chk<3>::run(mc::tier(4, 5), b);
    typedef Vec<T, 4> V4; std::vector<Ray<T, 4>> d{{V4(0, 0, 1, 2), V4(1, 0, 0, -1)}, {V4(1, 0, 1, 0), V4(1, 0, 0, 2)}, {V4(2, -1, 0, 1), V4(0, 0, 0, 0)}, {V4(-1, 3, 4, -2), V4(2, -1, 1, 1)}}; Chk<4>::run(mc::tier(3, 4), d);
}
