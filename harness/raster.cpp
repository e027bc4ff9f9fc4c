// C32: rasters. Every small grid, every edge policy, every interpolation, positions inside and outside, vs separable interpolation over an unbounded grid defined by the policy.
#include "mc.h"
#include "lat.h"
#include <geomc/linalg/Vec.h>
#include <geomc/shape/Rect.h>
#include <geomc/function/Raster.h>
using namespace geom;
typedef long double R;
static uint64_t IDX;
static index_t pmod(index_t a, index_t b) { return ((a % b) + b) % b; }
template <typename I, typename O, index_t M, index_t N> struct Chk {
    typedef Raster<I, O, M, N> Ras; typedef typename Ras::coord_t C; typedef typename Ras::grid_t G; typedef typename Ras::sample_t S;
    static index_t* it(G& g) { return PointType<index_t, M>::iterator(g); }
    static I* itc(C& c) { return PointType<I, M>::iterator(c); }
    static const O* its(const S& s) { return PointType<O, N>::iterator(s); }
    static constexpr bool fl = sizeof(I) == 4 or sizeof(O) == 4;
    std::vector<index_t> ext; std::vector<O> data; std::vector<O> abyss; std::string desc;
    index_t total() const { index_t n = 1; for (auto e : ext) n *= e; return n; }
    // the value of the unbounded grid
    const O* at(const std::vector<index_t>& c, EdgeBehavior e) const {
        index_t k = 0, d = 1;
        for (int i = 0; i < M; ++i) {
            index_t x = c[i], n = ext[i];
            switch (e) { case EDGE_CLAMP: x = x < 0 ? 0 : x >= n ? n - 1 : x; break; case EDGE_PERIODIC: x = pmod(x, n); break; case EDGE_MIRROR: if (n == 1) x = 0; else { x = pmod(x, 2 * (n - 1)); if (x >= n) x = 2 * (n - 1) - x; } break; default: if (x < 0 or x >= n) return abyss.data(); }
            k += x * d; d *= n;
        }
        return data.data() + k * N;
    }
    R interp(const std::vector<R>& p, int axis, std::vector<index_t>& c, EdgeBehavior e, Interpolation how, int ch) const {
        if (axis < 0) return at(c, e)[ch];
        R f = std::floor(p[axis]), s = p[axis] - f; index_t b = (index_t)f; R sum = 0; std::vector<R> w; index_t lo = b;
        if (how == INTERP_LINEAR) w = {1 - s, s}; else { lo = b - 1; w = {(-s + 2 * s * s - s * s * s) / 2, (2 - 5 * s * s + 3 * s * s * s) / 2, (s + 4 * s * s - 3 * s * s * s) / 2, (-s * s + s * s * s) / 2}; }
        for (size_t i = 0; i < w.size(); ++i) { c[axis] = lo + i; sum += w[i] * interp(p, axis - 1, c, e, how, ch); } return sum;
    }
    template <EdgeBehavior E, Interpolation W> void one(const Ras& r, const C& pos, const std::vector<R>& p) {
        S a = r.template sample<E, W>(pos), b = r.sample(pos, E, W); mc::step(2); static const char* en[] = {"clamp", "periodic", "mirror", "constant"}; static const char* wn[] = {"nearest", "linear", "cubic"}; const char *e = en[E], *w = wn[W];
        for (int k = 0; k < N; ++k) MC_CHECK(its(a)[k] == its(b)[k], "run-time choice", desc, e, " ", w, " at ", pos);
        if (W == INTERP_NEAREST) { // at a tie either neighbour is nearest
            std::vector<std::vector<index_t>> cand{{}}; for (int i = 0; i < M; ++i) { R f = std::floor(p[i] + 0.5L), fr = p[i] + 0.5L - f; std::vector<index_t> o{(index_t)f}; if (fr < 1e-4L) o.push_back((index_t)f - 1); if (fr > 1 - 1e-4L) o.push_back((index_t)f + 1); std::vector<std::vector<index_t>> nx; for (auto& c : cand) for (auto x : o) { auto d = c; d.push_back(x); nx.push_back(d); } cand = nx; }
            bool ok = false; for (auto& c : cand) { const O* v = at(c, E); bool m = true; for (int k = 0; k < N; ++k) m = m and v[k] == its(a)[k]; ok = ok or m; } MC_CHECK(ok, "nearest", desc, e, " at ", pos, " is ", its(a)[0]);
        } else for (int k = 0; k < N; ++k) { std::vector<index_t> c(M); R x = interp(p, M - 1, c, E, W, k); MC_CHECK(std::abs(x - its(a)[k]) <= (fl ? 2e-2L : 1e-8L), w, desc, e, " at ", pos, " channel ", k, " is ", its(a)[k], " not ", x); }
    }
    template <EdgeBehavior E> void edge(const Ras& r, const C& pos, const std::vector<R>& p) { one<E, INTERP_NEAREST>(r, pos, p); one<E, INTERP_LINEAR>(r, pos, p); one<E, INTERP_CUBIC>(r, pos, p); }
    template <EdgeBehavior E> void discrete(const Ras& r, std::vector<index_t> c) {
        G g; for (int i = 0; i < M; ++i) it(g)[i] = c[i]; S a = r.template sample_discrete<E>(g), b = r.sample_discrete(g, E); const O* v = at(c, E); mc::step(2); for (int k = 0; k < N; ++k) MC_CHECK(its(a)[k] == v[k] and its(b)[k] == v[k], "sample_discrete", desc, "edge ", (int)E, " at ", g, " is ", its(a)[k], " and ", its(b)[k], " not ", v[k]);
    }
    template <EdgeBehavior E> void region(const Ras& r, std::vector<index_t> lo, std::vector<index_t> hi) {
        G a, b; index_t n = 1; for (int i = 0; i < M; ++i) { it(a)[i] = lo[i]; it(b)[i] = hi[i]; n *= hi[i] - lo[i] + 1; } std::vector<S> x(n + 1), y(n + 1); for (auto& s : x) s = S((O)77); for (auto& s : y) s = S((O)77); r.template copy<E>(x.data(), Rect<index_t, M>(a, b)); r.copy(y.data(), Rect<index_t, M>(a, b), E); mc::step(2); size_t k = 0; bool ok = true;
        std::vector<index_t> c = lo; for (;;) { const O* v = at(c, E); for (int ch = 0; ch < N; ++ch) ok = ok and its(x[k])[ch] == v[ch] and its(y[k])[ch] == v[ch]; ++k; int i = 0; while (i < M and ++c[i] > hi[i]) { c[i] = lo[i]; ++i; } if (i == M) break; }
        MC_CHECK(ok and its(x[n])[0] == 77 and its(y[n])[0] == 77, "copy", desc, "edge ", (int)E, " region ", a, " ", b);
    }
    void allcells(const Ras& r, const char* what) { std::vector<index_t> c(M, 0); for (;;) { G g; for (int i = 0; i < M; ++i) it(g)[i] = c[i]; S s = r.template sample_discrete<EDGE_CONSTANT>(g); mc::step(); const O* v = at(c, EDGE_CONSTANT); for (int k = 0; k < N; ++k) MC_CHECK(its(s)[k] == v[k], what, desc, "cell ", g, " is ", its(s)[k], " not ", v[k]); int i = 0; while (i < M and ++c[i] >= ext[i]) { c[i] = 0; ++i; } if (i == M) break; } }
    void run(const std::vector<index_t>& e, int dom) {
        mc::state(); mc::trace(); ext = e; desc = mc::str(M, "D x", N, " extents ", lat::show(e), " domain ", dom, ": "); data.clear(); abyss.clear();
        uint32_t s = 12345; for (index_t i = 0; i < total() * N; ++i) { s = s * 1664525u + 1013904223u; data.push_back((O)((int)((s >> 16) % 41) - 20 + (O)i / 64)); } for (int i = 0; i < N; ++i) abyss.push_back(0);
        G g; C lo, hi; for (int i = 0; i < M; ++i) { it(g)[i] = e[i]; if (dom == 0) { itc(lo)[i] = 0; itc(hi)[i] = (I)(e[i] - 1); } else { itc(lo)[i] = (I)(dom == 1 ? -1.5 + i : 2); itc(hi)[i] = itc(lo)[i] + (e[i] == 1 ? (I)0 : dom == 1 ? (I)(3 + i) : (I)0.5); } }
        Rect<I, M> box(lo, hi); Ras r = dom == 0 ? Ras(g, data.data()) : Ras(g, data.data(), box);
        MC_CHECK(r.samplecount() == total() and r.dataExtents() == g and r.domain() == box and r.inputDimension() == M and r.outputDimension() == N, "geometry of the raster", desc, r.samplecount(), " ", r.domain().lo, " ", r.domain().hi);
        { Ras z = dom == 0 ? Ras(g) : Ras(g, box); MC_CHECK(z.domain() == box and z.samplecount() == total() and z.dataExtents() == g, "geometry of an empty raster", desc); auto keep = data; for (auto& v : data) v = 0; allcells(z, "a new raster is zero"); data = keep; }
        allcells(r, "stored data");
        std::vector<std::vector<index_t>> range(M); index_t pad = 2 + (M < 3); std::vector<index_t> c(M, -pad);
        for (int ab = 0; ab < 2; ++ab) {
            if (ab) { S v; O* q = PointType<O, N>::iterator(v); for (int k = 0; k < N; ++k) q[k] = abyss[k] = (O)(100 + 3 * k); r.setAbyss(v); }
            c.assign(M, -pad); for (;;) { discrete<EDGE_CONSTANT>(r, c); if (ab) { discrete<EDGE_CLAMP>(r, c); discrete<EDGE_PERIODIC>(r, c); discrete<EDGE_MIRROR>(r, c); G q; for (int i = 0; i < M; ++i) it(q)[i] = c[i]; bool in = true; for (int i = 0; i < M; ++i) in = in and c[i] >= 0 and c[i] < e[i]; MC_CHECK(r.contains_gridpt(q) == in, "contains_gridpt", desc, q); } int i = 0; while (i < M and ++c[i] > e[i] + pad) { c[i] = -pad; ++i; } if (i == M) break; }
        }
        // far outside: many periods away on either side
        for (int ax = 0; ax < M; ++ax) { c.assign(M, 0); for (index_t x = -6 * e[ax] - 3; x <= 7 * e[ax] + 3; ++x) { c[ax] = x; discrete<EDGE_CONSTANT>(r, c); discrete<EDGE_CLAMP>(r, c); discrete<EDGE_PERIODIC>(r, c); discrete<EDGE_MIRROR>(r, c); } for (index_t x : {(index_t)-1000003, (index_t)1000003, (index_t)-(1LL << 40), (index_t)(1LL << 40) + 1}) { c[ax] = x; discrete<EDGE_CONSTANT>(r, c); discrete<EDGE_CLAMP>(r, c); discrete<EDGE_PERIODIC>(r, c); discrete<EDGE_MIRROR>(r, c); } }
        const int q = M == 4 ? 1 : M == 3 ? mc::tier(1, 2) : M == 2 ? mc::tier(2, 4) : 8; // steps per cell
        std::vector<int> k(M, 0); auto steps = [&](int i) { return (int)((e[i] + 3) * q); };
        for (;;) { C pos; std::vector<R> p(M); for (int i = 0; i < M; ++i) { I t = (I)k[i] / q - 2 + (M >= 3 and q == 1 ? (I)0.25 * (i + 1 - (k[i] & 1)) : 0); if (dom == 0 or e[i] == 1) itc(pos)[i] = itc(lo)[i] + t; else itc(pos)[i] = itc(lo)[i] + (itc(hi)[i] - itc(lo)[i]) * t / (I)(e[i] - 1); p[i] = dom == 0 or e[i] == 1 ? (R)itc(pos)[i] - itc(lo)[i] : ((R)itc(pos)[i] - itc(lo)[i]) / ((R)itc(hi)[i] - itc(lo)[i]) * (e[i] - 1); }
            edge<EDGE_CLAMP>(r, pos, p); edge<EDGE_PERIODIC>(r, pos, p); edge<EDGE_MIRROR>(r, pos, p); edge<EDGE_CONSTANT>(r, pos, p); if (k[0] % 3 == 0) { S a = r.sample(pos), b = r.template sample<EDGE_CLAMP, INTERP_LINEAR>(pos); for (int ch = 0; ch < N; ++ch) MC_CHECK(its(a)[ch] == its(b)[ch], "defaults", desc); } int i = 0; while (i < M and ++k[i] > steps(i)) { k[i] = 0; ++i; } if (i == M) break; }
        for (index_t a = -2; a <= 1; ++a) for (index_t w = 0; w <= 3; ++w) { std::vector<index_t> l(M), h(M); for (int i = 0; i < M; ++i) { l[i] = a + i; h[i] = l[i] + (w + i) % 4; } region<EDGE_CLAMP>(r, l, h); region<EDGE_PERIODIC>(r, l, h); region<EDGE_MIRROR>(r, l, h); region<EDGE_CONSTANT>(r, l, h); }
        // set every cell in turn (and some outside)
        c.assign(M, -1); for (;;) { G q2; for (int i = 0; i < M; ++i) it(q2)[i] = c[i]; S v; O* w = PointType<O, N>::iterator(v); bool in = r.contains_gridpt(q2); index_t off = 0, d = 1; for (int i = 0; i < M; ++i) { off += c[i] * d; d *= e[i]; } for (int ch = 0; ch < N; ++ch) { w[ch] = (O)(500 + off * 4 + ch); if (in) data[off * N + ch] = w[ch]; } r.set(q2, v); mc::step(); allcells(r, "set"); int i = 0; while (i < M and ++c[i] > e[i]) { c[i] = -1; ++i; } if (i == M) break; }
    }
    static void all(index_t maxe) { std::vector<index_t> ex; for (index_t i = 1; i <= maxe; ++i) ex.push_back(i); mc::bound(mc::str("extents per axis, ", M, "D to ", N), maxe); std::string grp = mc::str("raster ", M, "D to ", N, fl ? " float" : ""); static std::string keep; keep = grp; lat::tuples_n<index_t>(M, ex, [&](const std::vector<index_t>& e) { for (int dom = 0; dom < 3; ++dom) if (mc::begin(keep.c_str(), IDX++)) { Chk c; c.run(e, dom); } }); }
};
void mc_run() {
    IDX = 0;
#if MCP == 1
    Chk<double, double, 1, 1>::all(mc::tier(6, 12)); Chk<double, double, 1, 2>::all(mc::tier(5, 9)); Chk<float, float, 1, 3>::all(5);
#elif MCP == 2
    Chk<double, double, 2, 1>::all(mc::tier(4, 6)); Chk<double, float, 2, 3>::all(mc::tier(3, 4));
#else
    Chk<double, double, 3, 1>::all(mc::tier(2, 4)); Chk<float, double, 3, 2>::all(mc::tier(2, 3)); Chk<double, double, 4, 1>::all(2);
#endif
}
