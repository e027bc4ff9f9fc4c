// C12: orthogonal complements, nullspaces, Gram-Schmidt.
#include "mc.h"
#include "lat.h"
#include <geomc/linalg/Orthogonal.h>
using namespace geom;
static uint64_t IDX;
static double KS = 1; // unit of length of the vectors
typedef std::vector<std::vector<long>> LV;
/// exact rank of integer rows (fraction-free elimination)
static size_t rank_of(LV a) {
    size_t r = 0; if (a.empty()) return 0; const size_t n = a[0].size();
    for (size_t c = 0; c < n and r < a.size(); ++c) {
        size_t p = r; while (p < a.size() and a[p][c] == 0) ++p;
        if (p == a.size()) continue;
        std::swap(a[p], a[r]);
        for (size_t i = r + 1; i < a.size(); ++i) if (a[i][c]) { long x = a[r][c], y = a[i][c]; for (size_t j = 0; j < n; ++j) a[i][j] = a[i][j] * x - a[r][j] * y; }
        ++r;
    }
    return r;
}
/// numerical rank with full pivoting, rows scaled to unit length
static size_t nrank(std::vector<std::vector<double>> a) {
    for (auto& v : a) { double m = 0; for (double x : v) m += x * x; m = std::sqrt(m); if (m > 0) for (double& x : v) x /= m; }
    size_t r = 0; if (a.empty()) return 0; const size_t n = a[0].size();
    while (r < a.size()) {
        size_t pi = r, pj = 0; double b = 0;
        for (size_t i = r; i < a.size(); ++i) for (size_t j = 0; j < n; ++j) if (std::abs(a[i][j]) > b) { b = std::abs(a[i][j]); pi = i; pj = j; }
        if (b < 1e-4) break;
        std::swap(a[pi], a[r]);
        for (size_t i = r + 1; i < a.size(); ++i) { double f = a[i][pj] / a[r][pj]; for (size_t j = 0; j < n; ++j) a[i][j] -= f * a[r][j]; }
        ++r;
    }
    return r;
}
template <typename T> double eps() { return sizeof(T) == 8 ? 1e-9 : 1e-3; }
template <typename T, index_t N> std::vector<double> dv(const Vec<T, N>& v) { std::vector<double> o; for (index_t i = 0; i < N; ++i) o.push_back(v[i]); return o; }
template <typename T, index_t N> bool fin(const Vec<T, N>& v) { for (index_t i = 0; i < N; ++i) if (not std::isfinite(v[i])) return false; return true; }
static double dotd(const std::vector<double>& a, const std::vector<double>& b) { double s = 0; for (size_t i = 0; i < a.size(); ++i) s += a[i] * b[i]; return s; }
static bool perp(const std::vector<double>& a, const std::vector<double>& b, double e) { return std::abs(dotd(a, b)) <= e * std::sqrt(dotd(a, a) * dotd(b, b)) + 1e-300; }
static std::string show(const LV& a) { std::string s; for (auto& v : a) s += lat::show(v); return s; }
template <typename T, index_t N> Vec<T, N> mk(const std::vector<long>& v) { Vec<T, N> o; for (index_t i = 0; i < N; ++i) o[i] = (T)(v[i] * KS); return o; }
/// dependent in a way no rounding can hide: a zero vector, or two vectors equal up to sign
static bool plainly_dependent(const LV& a) {
    for (size_t i = 0; i < a.size(); ++i) {
        bool z = true; for (long x : a[i]) z = z and x == 0; if (z) return true;
        for (size_t j = 0; j < i; ++j) { bool e = true, m = true; for (size_t k = 0; k < a[i].size(); ++k) { e = e and a[i][k] == a[j][k]; m = m and a[i][k] == -a[j][k]; } if (e or m) return true; }
    }
    return false;
}
template <typename T, index_t N> void comp(const LV& a) {
    const size_t n = a.size(); const size_t rk = rank_of(a); const double E = eps<T>();
    Vec<T, N> v[N + 1], keep[N + 1];
    for (size_t i = 0; i < n; ++i) keep[i] = v[i] = mk<T, N>(a[i]);
    if constexpr (N > 1) if (n == N - 1) {
        Vec<T, N> o = orthogonal<T>(v); mc::step();
        auto d = dv(o); MC_CHECK(fin(o), "finite", "orthogonal ", show(a), " -> ", o);
        for (size_t i = 0; i < n; ++i) { MC_CHECK(v[i] == keep[i], "input", "orthogonal changed its input ", show(a)); MC_CHECK(perp(d, dv(v[i]), E), "perpendicular", "orthogonal ", show(a), " -> ", o, " not perpendicular to vector ", i); }
        if (rk == n) MC_CHECK(dotd(d, d) > 0, "nonzero", "orthogonal of independent ", show(a), " is zero");
        else if (plainly_dependent(a)) MC_CHECK(dotd(d, d) == 0, "degenerate", "orthogonal of dependent ", show(a), " -> ", o);
    }
    for (int alias = 0; alias < 2; ++alias) {
        Vec<T, N> buf[2 * N + 2]; const Vec<T, N> mark = mk<T, N>(std::vector<long>(N, 77));
        for (auto& b : buf) b = mark;
        Vec<T, N>* out = buf + 1;
        if (alias) for (size_t i = 0; i < n; ++i) out[i] = v[i];
        bool ok = nullspace<T, N>(alias ? out : v, n, out); mc::step();
        const size_t k = n >= N ? 0 : N - n;
        std::vector<std::vector<double>> all, ns;
        for (size_t i = 0; i < k; ++i) { MC_CHECK(fin(out[i]), "finite", "nullspace ", show(a), " -> ", out[i]); ns.push_back(dv(out[i])); }
        for (size_t i = alias ? std::max(k, n) : k; i < 2 * N + 1; ++i) MC_CHECK(out[i] == mark, "bounds", "nullspace ", show(a), " wrote past its ", k, " outputs");
        MC_CHECK(buf[0] == mark, "bounds", "nullspace ", show(a), " wrote before its output");
        for (size_t i = 0; i < k; ++i) for (size_t j = 0; j < n; ++j) MC_CHECK(perp(ns[i], dv(v[j]), E), "perpendicular", "nullspace ", show(a), " basis ", i, " = ", out[i], " not perpendicular to input ", j);
        if (rk == n) { MC_CHECK(ok, "flag", "nullspace of independent ", show(a), " reports failure"); MC_CHECK(nrank(ns) == k, "span", "nullspace of ", show(a), " does not span the complement"); }
        else if (plainly_dependent(a) and n < N) { for (auto& x : ns) MC_CHECK(dotd(x, x) == 0, "degenerate", "nullspace of dependent ", show(a), " is not zero-filled"); if (k > 1) MC_CHECK(not ok, "flag", "nullspace of dependent ", show(a), " reports success"); }
    }
}
template <typename T, index_t N> void gram(const LV& a, const std::vector<std::vector<long>>& xs) {
    const size_t n = a.size(); if (rank_of(a) != n) return;
    const double E = eps<T>();
    Vec<T, N> v[N], w[N], o[N];
    for (size_t i = 0; i < n; ++i) o[i] = v[i] = w[i] = mk<T, N>(a[i]);
    if constexpr (N == 2) { if (n == 2) { orthogonalize(v); orthogonalize(w, 2); MC_CHECK(v[1] == w[1], "overload", "orthogonalize default argument differs"); for (int i = 0; i < 2; ++i) w[i] = o[i]; for (int i = 0; i < 2; ++i) v[i] = o[i]; } }
    orthogonalize(v, (index_t)n); orthonormalize(w, (index_t)n); mc::step(2);
    std::vector<std::vector<double>> A, B, W;
    MC_CHECK(n == 0 or v[0] == o[0], "first", "orthogonalize changed the first vector of ", show(a));
    for (size_t i = 0; i < n; ++i) {
        auto d = dv(v[i]), u = dv(w[i]);
        MC_CHECK(fin(v[i]) and fin(w[i]), "finite", "orthogonalize ", show(a), " vector ", i, " = ", v[i], " / ", w[i]);
        MC_CHECK(dotd(d, d) > 1e-12 * KS * KS, "nonzero", "orthogonalize ", show(a), " vector ", i, " vanished");
        MC_CHECK(std::abs(dotd(u, u) - 1) <= 10 * E, "unit", "orthonormalize ", show(a), " vector ", i, " = ", w[i]);
        for (size_t j = 0; j < i; ++j) { MC_CHECK(perp(d, dv(v[j]), E), "mutual", "orthogonalize ", show(a), " ", i, " against ", j); MC_CHECK(perp(u, dv(w[j]), E), "mutual", "orthonormalize ", show(a), " ", i, " against ", j); }
        A.push_back(dv(o[i])); A.push_back(d); A.push_back(u);
        MC_CHECK(nrank(A) == i + 1, "span", "orthogonalize ", show(a), " changed the span of the first ", i + 1);
    }
    if (n and dotd(dv(w[0]), dv(o[0])) <= 0) mc::fail("first", mc::str("orthonormalize reversed the first vector of ", show(a)));
    for (auto& x : xs) {
        Vec<T, N> b[N]; for (size_t i = 0; i < n; ++i) b[i] = o[i];
        Vec<T, N> X = mk<T, N>(x);
        Vec<T, N> p1 = project_to_orthogonal_subspace<T, N>(v, X, n), p2 = project_to_subspace<T, N>(b, X, n); mc::step(2);
        for (auto& p : {p1, p2}) {
            MC_CHECK(fin(p), "finite", "projection of ", lat::show(x), " on ", show(a), " = ", p);
            auto r = dv(Vec<T, N>(X - p)); double xl = std::sqrt(dotd(dv(X), dv(X))) + 1e-150;
            for (size_t i = 0; i < n; ++i) MC_CHECK(std::abs(dotd(r, dv(o[i]))) <= 10 * E * xl * std::sqrt(dotd(dv(o[i]), dv(o[i]))), "projection", "residual of ", lat::show(x), " on ", show(a), " = ", p, " not perpendicular");
            // p is in the span: perpendicular to the complement
            auto C = A; const size_t r0 = nrank(A); auto pd = dv(p); if (dotd(pd, pd) > 1e-6 * xl * xl) { C.push_back(pd); MC_CHECK(nrank(C) == r0, "inspan", "projection of ", lat::show(x), " on ", show(a), " = ", p, " leaves the subspace"); }
        }
    }
}
static LV pool(size_t N, int kind) {
    LV out;
    if (kind == 0) { lat::tuples_n<long>(N, {-1, 0, 1}, [&](const std::vector<long>& t) { out.push_back(t); }); }
    else if (kind == 1) { lat::tuples_n<long>(N, {-2, -1, 0, 1, 3}, [&](const std::vector<long>& t) { out.push_back(t); }); }
    else if (kind == 3) { lat::tuples_n<long>(N, {0, 1, 2}, [&](const std::vector<long>& t) { out.push_back(t); }); }
    else { // sparse: e_i, e_i + e_j, e_i - 2 e_j, and zero, and all-ones
        std::vector<long> z(N, 0); out.push_back(z); out.push_back(std::vector<long>(N, 1));
        for (size_t i = 0; i < N; ++i) { z[i] = 1; out.push_back(z); for (size_t j = 0; j < N; ++j) { if (j > i) { z[j] = 1; out.push_back(z); z[j] = 0; } if (j != i and (kind == 4)) { z[j] = -2; out.push_back(z); z[j] = 0; } } z[i] = 0; }
    }
    return out;
}
template <index_t N> void family(const char* grp, size_t n, int kind, bool gs) {
    LV p = pool(N, kind);
    LV xs = {std::vector<long>(N, 1), std::vector<long>(N, 0)}; xs[1][N - 1] = -3; if (N > 1) xs[1][0] = 2;
    std::vector<size_t> ix(n, 0); LV a(n);
    for (;;) {
        for (size_t i = 0; i < n; ++i) a[i] = p[ix[i]];
        if (mc::begin(grp, IDX++)) {
            mc::state(); mc::trace();
            comp<double, N>(a); if (N < 5) comp<float, N>(a);
            if (gs) { gram<double, N>(a, xs); if (N < 4) gram<float, N>(a, xs); }
            mc::outcome(rank_of(a) == n ? "independent" : "dependent");
        }
        size_t i = 0; for (; i < n; ++i) { if (++ix[i] < p.size()) break; ix[i] = 0; }
        if (i == n) return;
    }
}
/// every count of vectors in higher dimensions: rows of circulant bands, and of a dense linear-congruence pattern
template <index_t N> void patterns(const char* grp, bool fl) {
    LV xs = {std::vector<long>(N, 1), std::vector<long>(N, 0)}; xs[1][N - 1] = -3; xs[1][0] = 2;
    auto one = [&](const LV& a) {
        if (not mc::begin(grp, IDX++)) return;
        mc::state(); mc::trace();
        comp<double, N>(a); gram<double, N>(a, xs);
        if (fl) { comp<float, N>(a); }
        mc::outcome(rank_of(a) == a.size() ? "independent" : "dependent");
    };
    lat::tuples_n<long>(4, {-1, 0, 1, 2}, [&](const std::vector<long>& c) {
        for (size_t n = 1; n <= (size_t)N; ++n) { LV a(n, std::vector<long>(N, 0)); for (size_t i = 0; i < n; ++i) for (size_t k = 0; k < 4; ++k) a[i][(i + k) % N] += c[k]; one(a); }
    });
    for (long p = 1; p < 4; ++p) for (long q = 0; q < 5; ++q) for (long r = 0; r < 5; ++r)
        for (size_t n = 1; n <= (size_t)N; ++n) { LV a(n, std::vector<long>(N, 0)); for (size_t i = 0; i < n; ++i) for (size_t j = 0; j < (size_t)N; ++j) a[i][j] = ((long)(i * i * p + j * q + i * j) + r) % 5 - 2; one(a); }
}
void mc_run() {
    IDX = 0; const bool th = mc::thorough();
#if MCP == 1
    family<2>("d2n0", 0, 1, true); family<2>("d2n1", 1, 1, true); family<2>("d2n2", 2, 1, true);
    family<3>("d3n0", 0, 1, true); family<3>("d3n1", 1, 1, true); family<3>("d3n2", 2, 1, true); family<3>("d3n3", 3, 0, true);
    family<4>("d4n0", 0, 0, true); family<4>("d4n1", 1, 1, true); family<4>("d4n2", 2, 0, true);
    if (th) { family<3>("d3n3b", 3, 3, true); family<4>("d4n2b", 2, 3, true); }
#elif MCP == 2
    family<4>("d4n3", 3, th ? 0 : 4, false); family<4>("d4n4", 4, 2, true); if (th) family<4>("d4n3g", 3, 4, true);
#else
    family<5>("d5n1", 1, 1, true); family<5>("d5n2", 2, th ? 4 : 2, true); family<5>("d5n3", 3, th ? 4 : 2, true); family<5>("d5n4", 4, 2, false); family<5>("d5n5", th ? 5 : 1, 2, true);
    family<6>("d6n2", 2, 4, true); family<6>("d6n3", 3, 2, false); if (th) { family<6>("d6n4", 4, 2, false); }
#endif
#if MCP == 1
    patterns<5>("pattern d5", true); patterns<6>("pattern d6", false);
#elif MCP == 2
    patterns<7>("pattern d7", false);
#else
    patterns<8>("pattern d8", false);
#endif
    for (int e : {-12, 12}) {
        KS = std::ldexp(1., e);
#if MCP == 1
        family<2>("d2n2 scaled", 2, 1, true); family<3>("d3n2 scaled", 2, 0, true); family<3>("d3n3 scaled", 3, 2, true); family<4>("d4n2 scaled", 2, 2, true);
#elif MCP == 2
        family<4>("d4n3 scaled", 3, 2, true);
#else
        family<5>("d5n2 scaled", 2, 2, true); family<5>("d5n3 scaled", 3, 2, true);
#endif
        KS = 1;
    }
    mc::bound("units of length", "1, 2^-12, 2^12");
    mc::bound("vectors", "dimension 2-6, every count of vectors, from {-1,0,1}^N, {-2,-1,0,1,3}^N or the sparse family {0, 1, e_i, e_i+e_j, e_i-2e_j}; in dimension 5-8, every count of rows of circulant bands {-1,0,1,2}^4 and of dense congruence patterns");
    mc::sample("orthogonal((0,0,1,0),(1,0,0,1),(0,1,1,0)): finite, nonzero, perpendicular to each; nullspace aliased with its input");
}
