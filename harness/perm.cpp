// C14: permutation matrices under operation histories.   -DMCP=1 static/static 2 dynamic/dynamic 3 static/dynamic, PN=size
#include "mc.h"
#include "kinds.h"
using namespace geom; using mx::Dense;
typedef Dense<long> D;
#if MCP == 1
typedef PermutationMatrix<PN> PA; typedef PermutationMatrix<PN> PB;
#elif MCP == 2
typedef PermutationMatrix<0> PA; typedef PermutationMatrix<0> PB;
#else
typedef PermutationMatrix<PN> PA; typedef PermutationMatrix<0> PB;
#endif
const index_t n = PN;
template <typename P> P fresh() { if constexpr (P::ROWDIM == 0) return P(n); else return P(); }
D eye() { D d(n, n); for (index_t i = 0; i < n; ++i) d(i, i) = 1; return d; }
struct Model { D d = eye(); int known = 1, flip = 0; };
long sgn(const D& d) { std::vector<long> p(n); for (index_t i = 0; i < n; ++i) for (index_t j = 0; j < n; ++j) if (d(i, j)) p[i] = j; int k = 0; for (index_t i = 0; i < n; ++i) for (index_t j = 0; j < i; ++j) k += p[j] > p[i]; return (k & 1) ? -1 : 1; }
std::vector<std::pair<index_t, index_t>> PAIRS() { std::vector<std::pair<index_t, index_t>> v; for (index_t i = 0; i < n; ++i) for (index_t j = 0; j < n; ++j) if (i < j or (i == 1 and j == 1) or (i == n - 1 and j == 0)) v.push_back({i, j}); return v; }
const auto PR = PAIRS(); const int NP = PR.size();
enum { TX, SIGN, ID, SRC, CSRC, DST, CDST, SELFSRC, SELFDST, COPYFROM, ASSIGNSELF, MULPQ, MULQP, MULPP, PEQPQ, TXINTO, INVINTO, MTXCOPY, NOTHER };
const char* ON[] = {"transpose", "sign", "identity", "setRowSources", "setColSources", "setRowDestinations", "setColDestinations", "setRowSources(own)", "setRowSources(own destinations)", "=other", "=self", "mul(&x,x,y)", "mul(&x,y,x)", "mul(&x,x,x)", "x=x*y", "transpose(&x,y)", "inv(&x,y)", "mtxcopy(&x,y)"};
struct Sys {
    PA a = fresh<PA>(); PB b = fresh<PB>(); Model ma, mb;
    static int n_ops() { return 2 * (2 * NP + NOTHER); }
    static std::string op_name(int o) {
        int h = 2 * NP + NOTHER; std::string s = o >= h ? "b." : "a."; o %= h;
        if (o < NP) return s + mc::str("rows", PR[o].first, PR[o].second); o -= NP;
        if (o < NP) return s + mc::str("cols", PR[o].first, PR[o].second); o -= NP;
        return s + ON[o];
    }
    bool enabled(int o) { return MCP != 3 or true; }
    void apply(int o) { int h = 2 * NP + NOTHER; if (o < h) op(a, ma, b, mb, o); else op(b, mb, a, ma, o - h); check(a, ma, "a"); check(b, mb, "b"); }
    template <typename X, typename Y> void op(X& x, Model& m, Y& y, Model& my, int o) {
        D& d = m.d;
        if (o < NP) { auto [i, j] = PR[o]; x.swap_rows(i, j); for (index_t k = 0; k < n; ++k) if (i != j) std::swap(d(i, k), d(j, k)); return; }
        o -= NP;
        if (o < NP) { auto [i, j] = PR[o]; x.swap_cols(i, j); for (index_t k = 0; k < n; ++k) if (i != j) std::swap(d(k, i), d(k, j)); return; }
        o -= NP;
        std::vector<index_t> cyc(n); for (index_t i = 0; i < n; ++i) cyc[i] = (i + 1) % n; // row i comes from row i+1
        D c(n, n); for (index_t i = 0; i < n; ++i) c(i, cyc[i]) = 1;
        constexpr bool same_t = std::is_same_v<X, Y>;
        switch (o) {
            case TX: x.transpose(); d = mx::tr(d); m.flip ^= 1; break;
            case SIGN: { auto s = x.sign(); MC_CHECK(s == sgn(d), "sign", "sign() = ", s, " of ", mx::show(d)); m.known = 1; break; }
            case ID: x.set_identity(); d = eye(); m.known = 1; break;
            case SRC: x.setRowSources(cyc.data()); d = c; m.known = 0; break;
            case CSRC: x.setColSources(cyc.data()); d = mx::tr(c); m.known = 0; break;
            case DST: x.setRowDestinations(cyc.data()); d = mx::tr(c); m.known = 0; break;
            case CDST: x.setColDestinations(cyc.data()); d = c; m.known = 0; break;
            case SELFSRC: x.setRowSources(x.getRowSources()); m.known = 0; break;
            case SELFDST: x.setRowSources(x.getRowDestinations()); d = mx::tr(d); m.known = 0; break;
            case COPYFROM: if constexpr (same_t) x = y; else mtxcopy(&x, y); m = my; break;
            case ASSIGNSELF: { const X& r = x; x = r; break; }
            case MULPQ: mul(&x, x, y); d = mx::mul(d, my.d); m.known = 0; break;
            case MULQP: mul(&x, y, x); d = mx::mul(my.d, d); m.known = 0; break;
            case MULPP: mul(&x, x, x); d = mx::mul(d, d); m.known = 0; break;
            case PEQPQ: if constexpr (same_t) x = x * y; else { auto r = x * y; mtxcopy(&x, r); } d = mx::mul(d, my.d); m.known = 0; break;
            case TXINTO: transpose(&x, y); d = mx::tr(my.d); m.known = 0; break;
            case INVINTO: { bool ok = inv(&x, y); MC_CHECK(ok, "inv", "inverse of a permutation failed"); d = mx::tr(my.d); m.known = 0; break; }
            case MTXCOPY: mtxcopy(&x, y); d = my.d; m.known = 0; break;
        }
    }
    template <typename X> void check(const X& x, const Model& m, const char* w) {
        const D& d = m.d;
        MC_CHECK(x.rows() == n and x.cols() == n, "dims", w, " dims");
        if (x.rows() != n) return;
        MC_CHECK(mx::snap<long>(x) == d, "elem", w, " is ", mx::show(mx::snap<long>(x)), " want ", mx::show(d));
        bool rs = true, cs = true, rd = true, cd = true;
        for (index_t i = 0; i < n; ++i) {
            rs = rs and x.getRowSources()[i] >= 0 and x.getRowSources()[i] < n and d(i, x.getRowSources()[i]);
            cs = cs and x.getColSources()[i] >= 0 and x.getColSources()[i] < n and d(x.getColSources()[i], i);
            rd = rd and x.getRowDestinations()[i] >= 0 and x.getRowDestinations()[i] < n and d(x.getRowDestinations()[i], i);
            cd = cd and x.getColDestinations()[i] >= 0 and x.getColDestinations()[i] < n and d(i, x.getColDestinations()[i]);
        }
        MC_CHECK(rs and cs and rd and cd, "maps", w, " row sources ", rs, " col sources ", cs, " row dest ", rd, " col dest ", cd, " for ", mx::show(d));
        X copy = x; auto s = copy.sign(); MC_CHECK(s == sgn(d), "sign", w, " sign ", s, " of ", mx::show(d));
        MC_CHECK(mx::snap<long>(copy) == d and det(x) == sgn(d), "signtouch", w, " sign() changed the matrix, or det differs");
        bool maps = true; for (index_t i = 0; i < n; ++i) maps = maps and d(copy.getColSources()[i], i) and d(i, copy.getRowSources()[i]); MC_CHECK(maps, "signmaps", w, " sign() broke the maps");
        // action
        Vec<long, PN> v; for (index_t i = 0; i < n; ++i) v[i] = 10 + 3 * i;
        SimpleMatrix<long, PN, 1> cv; mul(&cv, x, v); SimpleMatrix<long, 1, PN> rv; mul(&rv, v, x);
        bool act = true; for (index_t i = 0; i < n; ++i) { long p = 0, q = 0; for (index_t j = 0; j < n; ++j) { p += d(i, j) * v[j]; q += v[j] * d(j, i); } act = act and cv(i, 0) == p and rv(0, i) == q; }
        MC_CHECK(act, "action", w, " action on vectors for ", mx::show(d));
    }
    uint64_t key() { uint64_t k = 0; for (auto* m : {&ma, &mb}) { for (long x : m->d.v) k = mc::mix(k, x); k = mc::mix(k, m->known * 2 + m->flip); } return k; }
    void finish() { MC_CHECK((a == b) == (ma.d == mb.d) and (b == a) == (ma.d == mb.d), "eq", "a == b is ", (a == b)); }
};
void apply_all() {
    for (size_t k = 1; k <= (mc::thorough() ? 8 : 7); ++k) { std::vector<index_t> p(k); for (size_t i = 0; i < k; ++i) p[i] = i; uint64_t idx = 0;
        do { if (not mc::begin("apply", idx++ * 10 + k)) continue; auto q = p; std::vector<int> v(k); for (size_t i = 0; i < k; ++i) v[i] = 100 + i; permutation_apply(q.data(), k, v.begin());
            bool ok = true, id = true; for (size_t i = 0; i < k; ++i) { ok = ok and v[i] == 100 + p[i]; id = id and q[i] == index_t(i); } MC_CHECK(ok and id, "apply", "permutation_apply ", lat::show(p), " gives ", lat::show(v), " leaving ", lat::show(q));
            q = p; int inv = 0; for (size_t i = 0; i < k; ++i) for (size_t j = 0; j < i; ++j) inv += p[j] > p[i]; MC_CHECK(permutation_sign(q.data(), k) == ((inv & 1) ? -1 : 1), "psign", "permutation_sign ", lat::show(p)); mc::step(2); mc::state(); } while (std::next_permutation(p.begin(), p.end())); }
}
void mc_run() {
    mc::bfs<Sys>("perm", 12, mc::tier(4000, 20000));
    mc::all_sequences<Sys>("seq", mc::tier(2, 3));
    if (MCP == 1 and PN == 3) apply_all();
    mc::bound("operations", "all row/column swaps, four map setters (incl. own arrays), transpose, sign, composition in three aliasings, copies, inverse on two matrices");
    mc::sample("a.rows01 b.transpose a.mul(&x,x,y) a.sign: dense permutation, all four maps, sign, det, action, equality");
    mc::bound("depth", "search to closure or state cap, plus every history of 2 (3 thorough) operations");
}
