// C33: gradient noise, every cell of a box and every position of a sub-lattice of each cell (borders included).
#include "mc.h"
#include "lat.h"
#include <geomc/random/MTRand.h>
#include <geomc/random/LCRand.h>
#include <geomc/function/PerlinNoise.h>
using namespace geom;
#ifndef ET
#define ET double
#endif
typedef ET T; typedef long double R;
static uint64_t IDX; static constexpr bool DBL = sizeof(T) == 8;
template <index_t N> struct Chk {
    typedef PerlinNoise<T, N> Pn; typedef PointType<T, N> Pt; typedef typename Pt::point_t P;
    static const T* it(const P& p) { return Pt::iterator(p); }
    static P mk(const std::array<T, N>& a) { P p; T* q = Pt::iterator(p); for (int i = 0; i < N; ++i) q[i] = a[i]; return p; }
    static bool same(const P& a, const P& b, R tol) { for (int i = 0; i < N; ++i) if (not(std::abs((R)it(a)[i] - it(b)[i]) <= tol)) return false; return true; }
    static void cell(const Pn& f, const Pn& g, const Pn& copy, const std::array<T, N>& base, int q, const std::string& s) {
        mc::state(); mc::trace(); std::array<P, (1 << N)> cg; P c0 = mk(base);
        for (int c = 0; c < (1 << N); ++c) { auto a = base; for (int i = 0; i < N; ++i) a[i] += (c >> i) & 1; P p = mk(a); auto r = f.gradient(p); cg[c] = r.second; mc::step(2); MC_CHECK(std::abs((R)f.eval(p)) <= 1e-12L and std::abs((R)r.first) <= 1e-12L, "zero at lattice points", s, " at ", p, ": ", f.eval(p)); MC_CHECK(Pt::mag(r.second) <= (T)1.00001, "lattice gradient", s, " at ", p); }
        R big = 1; for (T b : base) big = std::max(big, std::abs((R)b)); const R eps = big * (DBL ? 1e-15L : 6e-7L);
        std::vector<T> sub; for (int j = 0; j <= q; ++j) sub.push_back((T)j / q);
        lat::tuples<N, T>(sub, [&](const std::array<T, N>& u) {
            auto a = base; for (int i = 0; i < N; ++i) a[i] += u[i]; P p = mk(a); T v = f.eval(p); auto gr = f.gradient(p); mc::step(4);
            MC_CHECK(std::abs((R)v - gr.first) <= 1e-12L + 4 * eps, "gradient() reports the value", s, " at ", p, ": ", v, " ", gr.first);
            MC_CHECK(g.eval(p) == v and copy.eval(p) == v, "same seed, same field", s, " at ", p); auto gg = g.gradient(p); MC_CHECK(gg.first == gr.first and same(gg.second, gr.second, 0), "same seed, same gradient", s, " at ", p);
            R lo = 1e9, hi = -1e9; for (int c = 0; c < (1 << N); ++c) { R d = 0; for (int i = 0; i < N; ++i) d += ((R)u[i] - ((c >> i) & 1)) * it(cg[c])[i]; lo = std::min(lo, d); hi = std::max(hi, d); }
            MC_CHECK(v >= lo - 4 * eps - 1e-12L and v <= hi + 4 * eps + 1e-12L, "blend of the corner planes", s, " at ", p, ": ", v, " not in ", lo, "..", hi);
            for (int i = 0; i < N; ++i) {
                const T h = DBL ? (T)1e-4 : (T)1e-2; auto b = a, d = a; b[i] += h; d[i] -= h; T x = f.eval(mk(b)), y = f.eval(mk(d)); mc::step(2); R h2 = (R)b[i] - d[i], fd = ((R)x - y) / h2;
                if (eps < 0.01L * h) MC_CHECK(std::abs(fd - it(gr.second)[i]) <= (DBL ? 1e-3L : 3e-2L) + 8 * eps / h, "gradient is the derivative", s, " at ", p, " axis ", i, ": ", it(gr.second)[i], " slope ", fd);
                if (u[i] == 0 or u[i] == 1) { // cell border: approach from either side
                    auto e = a; e[i] = std::nextafter(a[i], u[i] == 0 ? (T)-1e30 : (T)1e30); auto w = f.gradient(mk(e)); T z = f.eval(mk(e)); mc::step(2); MC_CHECK(std::abs((R)z - v) <= 16 * eps + 1e-12L, "continuous across cells", s, " at ", p, " axis ", i, ": ", v, " beside ", z); MC_CHECK(same(w.second, gr.second, 256 * eps + 1e-12L), "smooth across cells", s, " at ", p, " axis ", i, ": ", gr.second, " beside ", w.second);
                }
            }
        });
    }
    static void run(const std::vector<T>& cells, int q, int seeds) {
        mc::bound(mc::str("cells per axis ", N, "D"), cells.size()); mc::bound(mc::str("sub-steps ", N, "D"), q); mc::bound("seeds", seeds); static const std::string grp = mc::str("noise ", N, "D");
        for (int seed = 0; seed < seeds; ++seed) {
            MTRand r1(seed * 7 + 1), r2(seed * 7 + 1); Pn f(&r1), g(&r2), other(&r1); Pn copy(f); { LCRand l1(seed), l2(seed); Pn a(&l1), b(&l2); if (mc::begin(grp.c_str(), IDX++)) for (int i = 0; i < 64; ++i) { std::array<T, N> x; for (int k = 0; k < N; ++k) x[k] = (T)(i * (k + 1)) / 3 - 7; MC_CHECK(a.eval(mk(x)) == b.eval(mk(x)), "seed", "LCRand"); (void)other.eval(mk(x)); } }
            lat::tuples<N, T>(cells, [&](const std::array<T, N>& b) { if (mc::begin(grp.c_str(), IDX++)) cell(f, g, copy, b, q, mc::str(N, "D seed ", seed * 7 + 1)); });
            // the field varies with every coordinate: moving by whole cells along one axis meets different gradients
            for (int i = 0; i < N; ++i) if (mc::begin(grp.c_str(), IDX++)) { int diff = 0; for (int k = 1; k <= 16; ++k) { std::array<T, N> x; x.fill((T)0.25); auto y = x; y[i] += k; diff += f.eval(mk(x)) != f.eval(mk(y)); mc::step(2); } mc::trace(); MC_CHECK(diff >= 8, "varies along every axis", N, "D axis ", i, ": ", diff); }
        }
    }
};
void mc_run() {
    IDX = 0; mc::bound("element type", DBL ? "double" : "float"); std::vector<T> wide; for (int i = -24; i <= 24; ++i) wide.push_back(i); wide.push_back(-1000003); wide.push_back(DBL ? (T)1e9 : (T)100000); std::vector<T> box{-2, -1, 0, 1, 7}; if (mc::thorough()) { box = {-257, -3, -2, -1, 0, 1, 2, 255}; }
    Chk<1>::run(wide, mc::tier(32, 64), mc::tier(4, 16)); Chk<2>::run(box, mc::tier(8, 16), mc::tier(4, 16)); Chk<3>::run(mc::thorough() ? box : std::vector<T>{-1, 0, 5}, mc::tier(4, 6), mc::tier(2, 3)); Chk<4>::run({-1, 0}, mc::tier(3, 4), mc::tier(1, 3)); Chk<5>::run({-1}, mc::tier(2, 3), mc::tier(1, 2));
}
