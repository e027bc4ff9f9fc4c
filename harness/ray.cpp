// C30: rays against the line they denote.
#include "mc.h"
#include "lat.h"
#include <geomc/linalg/Vec.h>
#include <geomc/linalg/Ray.h>
#include <geomc/linalg/AffineTransform.h>
using namespace geom;
typedef long double R;
#ifndef ET
#define ET double
#endif
typedef ET T;
static uint64_t IDX; static std::string ctx;
static T SC = 1; // unit of length: origins, directions and points are scaled by it
static const R TOL = sizeof(T) == 8 ? 1e-12L : 1e-5L;
template <index_t N> struct Chk {
    typedef Vec<T, N> V; typedef std::array<R, N> A;
    static V v_(const A& a) { V v; for (int i = 0; i < N; ++i) v[i] = (T)a[i] * SC; return v; }
    static void eq(const char* key, const V& v, const A& e, R s = 1) { mc::step(); for (int i = 0; i < N; ++i) if (not(std::abs(v[i] / (R)SC - e[i]) <= TOL * std::max<R>(s, std::abs(e[i])))) { mc::fail(key, mc::str(ctx, ": ", key, " gave ", v, " expected ", lat::show(e))); return; } }
    static void eqs(const char* key, R a, R e, R s = 1) { mc::step(); if (not(std::abs(a - e) <= TOL * std::max<R>(s, std::abs(e)))) mc::fail(key, mc::str(ctx, ": ", key, " gave ", a, " expected ", e)); }
    static R dot(const A& a, const A& b) { R s = 0; for (int i = 0; i < N; ++i) s += a[i] * b[i]; return s; }
    static A lin(const A& a, R t, const A& b) { A o; for (int i = 0; i < N; ++i) o[i] = a[i] + t * b[i]; return o; }
    static void run() {
        if (SC == 1 and mc::begin("default", IDX++)) { ctx = mc::str(N, "D default"); Ray<T, N> r; A z{}, x{}; x[0] = 1; eq("default origin", r.origin, z); eq("default direction", r.direction, x); }
        std::vector<A> pts, os; lat::tuples<N, R>(N == 2 ? std::vector<R>{-2, -0.5L, 0, 1, 3} : N == 3 ? mc::tier(std::vector<R>{-2, 0, 1}, std::vector<R>{-2, 0, 1, 3}) : std::vector<R>{-2, 0, 1}, [&](const A& a) { pts.push_back(a); }); lat::tuples<N, R>({0, -1.5L}, [&](const A& a) { os.push_back(a); });
        mc::bound(mc::str("points ", N, "D"), pts.size());
        for (auto& o : os) for (auto& d : pts) {
            if (not mc::begin("ray", IDX++)) continue; mc::state(); ctx = mc::str(N, "D ray ", lat::show(o), " + s ", lat::show(d)); Ray<T, N> r(v_(o), v_(d)); R d2 = dot(d, d), dl = std::sqrt(d2); Ray<T, N> m = -r; eq("reverse", m.origin, o); eq("reverse", m.direction, lin(A{}, -1, d));
            for (R s : {0.0L, 1.0L, -2.5L, 4.0L}) { eq("point", r.at_multiple((T)s), lin(o, s, d)); eq("point", r * (T)s, lin(o, s, d)); eq("point", (T)s * r, lin(o, s, d)); if (d2 > 0) eq("at_distance", r.at_distance((T)s * SC), lin(o, s / dl, d), 10); }
            { auto w = r.template resized<N + 1>(); bool ok = w.origin[N] == 0 and w.direction[N] == 0; for (int i = 0; i < N; ++i) ok = ok and w.origin[i] == r.origin[i] and w.direction[i] == r.direction[i]; MC_CHECK(ok, "resize", ctx); if constexpr (N > 2) { auto u = r.template resized<N - 1>(); for (int i = 0; i < N - 1; ++i) MC_CHECK(u.origin[i] == r.origin[i] and u.direction[i] == r.direction[i], "resize", ctx); } }
            MC_CHECK((geom::hash<Ray<T, N>, size_t>(r) == geom::hash<Ray<T, N>, size_t>(Ray<T, N>(v_(o), v_(d)))), "hash", ctx);
            { std::ostringstream st, want; st << r; want << "<" << r.origin << " + s * " << r.direction << ">"; MC_CHECK(st.str() == want.str(), "print", ctx, " prints ", st.str()); }
            for (auto& p : pts) {
                A b = lin(p, -1, o); R t = d2 > 0 ? dot(b, d) / d2 : 0; A near = lin(o, t, d), off = lin(p, -1, near); R q2 = dot(off, off); mc::trace();
                R sc = 20 * (1 + dot(b, b)); eqs("dist2", r.dist2(v_(p)) / ((R)SC * SC), q2, sc); R sd = r.sdf(v_(p)) / (R)SC; mc::step(); if (not(std::abs(sd * sd - q2) <= TOL * sc) or sd < 0) mc::fail("sdf", mc::str(ctx, " point ", lat::show(p), ": distance ", sd, " expected ", std::sqrt(q2)));
                if (d2 > 0) { eq("project", r.project(v_(p)), near, 20 * (1 + dot(b, b))); V z = r.project(v_(p)); eqs("projected point is on the line", r.dist2(z) / ((R)SC * SC), 0, 100 * sc); for (R s : {-1.0L, 0.5L}) { A other = lin(o, t + s, d); R far = dot(lin(p, -1, other), lin(p, -1, other)); MC_CHECK(r.dist2(v_(p)) / ((R)SC * SC) <= far + TOL * sc, "nearest", ctx); } } else eq("project", r.project(v_(p)), o, 10);
            }
        }
    }
};
void mc_run() { IDX = 0; mc::bound("element type", sizeof(T) == 8 ? "double" : "float"); mc::bound("units of length", "1, 2^-12, 2^12"); for (int e : {-12, 12, 0}) { SC = std::ldexp((T)1, e); Chk<2>::run(); Chk<3>::run(); Chk<4>::run(); Chk<5>::run(); } }
