// C11: LU decomposition and linear solving.   -DMCP=1 factorisation, 2 solving (exact), 3 solving (double, n<=7)
#include "mc.h"
#include "fam.h"
using namespace geom; using mx::Dense; using namespace fam;
static uint64_t IDX;
static double KS = 1; // floating point systems are multiplied by it on both sides (a power of two)
template <typename T> T unit() { if constexpr (std::is_floating_point_v<T>) return T(KS); else return T(1); }
template <typename T> Dense<T> scaled(Dense<T> d, T k) { for (T& x : d.v) x = x * k; return d; }
template <typename T, bool RM> std::vector<T> flat(const Dense<T>& d) { std::vector<T> v(d.r * d.c); for (size_t i = 0; i < d.r; ++i) for (size_t j = 0; j < d.c; ++j) v[RM ? i * d.c + j : j * d.r + i] = d(i, j); return v; }
template <typename T, bool RM> Dense<T> unflat(const T* v, size_t r, size_t c) { Dense<T> d(r, c); for (size_t i = 0; i < r; ++i) for (size_t j = 0; j < c; ++j) d(i, j) = v[RM ? i * c + j : j * r + i]; return d; }
inline bool isperm(const std::vector<index_t>& p) { std::vector<index_t> q = p; std::sort(q.begin(), q.end()); for (size_t i = 0; i < q.size(); ++i) if (q[i] != index_t(i)) return false; return true; }
inline bool oddperm(const std::vector<index_t>& p) { int k = 0; for (size_t i = 0; i < p.size(); ++i) for (size_t j = 0; j < i; ++j) k += p[j] > p[i]; return k & 1; }
/// factorise, rebuild, compare
template <bool RM, bool COLPIVOT> void factor(const DL& a) {
    typedef Rat T;
    Dense<T> d = as<T>(a); size_t R = a.r, C = a.c, n = std::min(R, C), np = COLPIVOT ? C : R;
    std::string w = mc::str(COLPIVOT ? "lup " : "plu ", RM ? "row " : "col ", mx::show(a));
    auto v = flat<T, RM>(d); auto v2 = v, v3 = v; std::vector<index_t> p(np, -1); bool par = true, par2 = true;
    index_t g, g2, g3;
    if (COLPIVOT) { g = decomp_lup<T, RM>(v.data(), R, C, p.data(), &par); g2 = decomp_lup<T, RM>(v2.data(), R, C, nullptr, &par2); g3 = decomp_lup<T, RM>(v3.data(), R, C, nullptr, nullptr); }
    else { g = decomp_plu<T, RM>(v.data(), R, C, p.data(), &par); g2 = decomp_plu<T, RM>(v2.data(), R, C, nullptr, &par2); g3 = decomp_plu<T, RM>(v3.data(), R, C, nullptr, nullptr); }
    MC_CHECK(isperm(p), "perm", w, " reorder is ", lat::show(p));
    if (not isperm(p)) return;
    MC_CHECK(par == oddperm(p), "parity", w, " parity ", par, " for reorder ", lat::show(p));
    MC_CHECK(v == v2 and v == v3 and par == par2 and g == g2 and g == g3, "optional", w, " result depends on the optional outputs");
    Dense<T> lu = unflat<T, RM>(v.data(), R, C), L(R, n), U(n, C), m(R, C);
    for (size_t i = 0; i < R; ++i) for (size_t j = 0; j < n; ++j) L(i, j) = i == j ? T(1) : i > j ? lu(i, j) : T(0);
    for (size_t i = 0; i < n; ++i) for (size_t j = 0; j < C; ++j) U(i, j) = i <= j ? lu(i, j) : T(0);
    for (size_t i = 0; i < R; ++i) for (size_t j = 0; j < C; ++j) m(i, j) = COLPIVOT ? d(i, p[j]) : d(p[i], j);
    // pivoting columns cannot always represent a rank-deficient matrix (no unit-lower L exists); it must then say so
    if (not COLPIVOT or g == 0) MC_CHECK(mx::mul(L, U) == m, "factors", w, " L*U = ", mx::show(mx::mul(L, U)), " want ", mx::show(m));
    size_t rk = rank(a);
    if (COLPIVOT ? C >= R : R >= C) MC_CHECK((g == 0) == (rk == n), "degenerate", w, " reported ", g, " degenerate, rank ", rk, " of ", n);
    mc::outcome(g == 0 ? "full rank" : "degenerate"); mc::step(3);
}
void factors(const char* grp, const DL& a) {
    if (not mc::begin(grp, IDX++)) return;
    factor<true, false>(a); factor<false, false>(a); factor<true, true>(a); factor<false, true>(a);
    MC_CHECK(not reset(), "range", "harness: exact arithmetic left its range on ", mx::show(a));
    mc::trace(); mc::state();
}
template <typename T, bool RM> void solve(const DL& a, long dt, double tol) {
    const size_t n = a.r; std::string w = mc::str(RM ? "row " : "col ", mx::show(a));
    const T k = unit<T>(); Dense<T> d = scaled(as<T>(a), k); auto fits = [&](const Dense<T>& x, const Dense<T>& B) { return close_to(scaled(mx::mul(d, x), T(1) / k), scaled(B, T(1) / k), tol); };
    for (size_t m : {size_t(1), size_t(2), n + 1}) {
        Dense<T> B(n, m); for (size_t i = 0; i < n; ++i) for (size_t j = 0; j < m; ++j) B(i, j) = j < n and m > n ? T(long(i == j)) : T(long((i * 3 + j * 5) % 7) - 2);
        for (T& x : B.v) x = x * k;
        auto A = flat<T, RM>(d); auto X = flat<T, RM>(B);
        bool ok = linear_solve<T, RM>(A.data(), n, m, X.data());
        MC_CHECK(ok == (dt != 0), "flag", w, " m=", m, " linear_solve returned ", ok, ", determinant ", dt);
        if (ok and dt) { auto x = unflat<T, RM>(X.data(), n, m); MC_CHECK(fits(x, B), "solve", w, " m=", m, " A*x = ", mx::show(mx::mul(d, x)), " want ", mx::show(B)); }
        if (dt) { // decomposed forms, and skipped leading unknowns
            auto F = flat<T, RM>(d); std::vector<index_t> p(n); bool par; decomp_plu<T, RM>(F.data(), n, n, p.data(), &par);
            auto b = flat<T, RM>(B); std::vector<T> x0(n * m, T(55)); backsolve_plu<T, RM>(F.data(), p.data(), n, m, x0.data(), b.data());
            auto X0 = unflat<T, RM>(x0.data(), n, m); MC_CHECK(fits(X0, B), "plu", w, " m=", m, " backsolve_plu gives ", mx::show(X0));
            MC_CHECK((b == flat<T, RM>(B)), "const", w, " backsolve_plu changed b");
            Dense<T> PB(n, m); for (size_t i = 0; i < n; ++i) for (size_t j = 0; j < m; ++j) PB(i, j) = B(p[i], j);
            auto x1 = flat<T, RM>(PB); backsolve_lu<T, RM>(F.data(), n, m, x1.data()); MC_CHECK((close_to(unflat<T, RM>(x1.data(), n, m), X0, tol)), "lu", w, " m=", m, " backsolve_lu");
            for (size_t sk = 1; sk < n; ++sk) {
                auto tail = [&](const std::vector<T>& y, const char* how) { auto Y = unflat<T, RM>(y.data(), n, m); bool same = true; for (size_t i = sk; i < n; ++i) for (size_t j = 0; j < m; ++j) same = same and near(Y(i, j), X0(i, j), tol); MC_CHECK(same, "skip", w, " m=", m, " ", how, " skip=", sk, " gives ", mx::show(Y), " want tail of ", mx::show(X0)); };
                std::vector<T> y(n * m, T(55)); backsolve_plu<T, RM>(F.data(), p.data(), n, m, y.data(), b.data(), sk); tail(y, "backsolve_plu");
                y = flat<T, RM>(PB); backsolve_lu<T, RM>(F.data(), n, m, y.data(), sk); tail(y, "backsolve_lu");
                auto A2 = flat<T, RM>(d); y = flat<T, RM>(B); linear_solve<T, RM>(A2.data(), n, m, y.data(), sk); tail(y, "linear_solve");
                mc::step(3);
            }
        }
        mc::step();
    }
}
template <typename T, index_t N> void vecsolve(const DL& a, long dt, double tol) {
    for (index_t m : {index_t(1), index_t(3), N + 1}) {
        Vec<T, N> base[N]; std::vector<Vec<T, N>> x(m), b(m);
        for (index_t i = 0; i < N; ++i) for (index_t j = 0; j < N; ++j) base[i][j] = T(a(j, i)) * unit<T>(); // basis vectors are the columns
        for (index_t k = 0; k < m; ++k) for (index_t j = 0; j < N; ++j) b[k][j] = k < N and m > N ? T(long(k == j)) : T((j * 3 + k * 5) % 7 - 2), x[k][j] = b[k][j] * unit<T>();
        bool ok = linear_solve(base, m, x.data());
        MC_CHECK(ok == (dt != 0), "vecflag", "bases = columns of ", mx::show(a), " m=", m, " returned ", ok, ", determinant ", dt);
        if (ok and dt) for (index_t k = 0; k < m; ++k) for (index_t j = 0; j < N; ++j) { T s(0); for (index_t i = 0; i < N; ++i) s = s + T(a(j, i)) * x[k][i]; MC_CHECK(near(s, b[k][j], tol), "vecsolve", "bases = columns of ", mx::show(a), " m=", m, " vector ", k, " coordinate ", j, " = ", s, " want ", b[k][j]); }
        mc::step();
    }
}
template <typename T, index_t N> void solves(const char* grp, const DL& a, double tol, bool sing = true) {
    if (not mc::begin(grp, IDX++)) return;
    long dt = det(a); if (dt == 0 and not sing) return;
    solve<T, true>(a, dt, tol); solve<T, false>(a, dt, tol); vecsolve<T, N>(a, dt, tol);
    MC_CHECK(not reset(), "range", "harness: exact arithmetic left its range on ", mx::show(a));
    mc::outcome(dt ? "regular" : "singular"); mc::trace(); mc::state();
}
void mc_run() {
    IDX = 0; const bool th = mc::thorough();
#if MCP == 1
    const std::vector<long> s3 = {-1, 0, 2}, s4 = th ? std::vector<long>{-1, 0, 1, 2} : s3;
    all(1, 1, {-2, 0, 3}, [&](const DL& a) { factors("1x1", a); }); all(1, 3, s3, [&](const DL& a) { factors("1x3", a); }); all(3, 1, s3, [&](const DL& a) { factors("3x1", a); });
    all(2, 2, {-2, -1, 0, 1, 3}, [&](const DL& a) { factors("2x2", a); });
    all(2, 3, s4, [&](const DL& a) { factors("2x3", a); }); all(3, 2, s4, [&](const DL& a) { factors("3x2", a); });
    all(2, 4, {0, 1, -2}, [&](const DL& a) { factors("2x4", a); }); all(4, 2, {0, 1, -2}, [&](const DL& a) { factors("4x2", a); });
    all(3, 3, s4, [&](const DL& a) { factors("3x3", a); });
    all(3, 4, {0, 1}, [&](const DL& a) { factors("3x4", a); }); all(4, 3, {0, 1}, [&](const DL& a) { factors("4x3", a); });
    if (th) all(4, 4, {0, 1}, [&](const DL& a) { factors("4x4all", a); });
    structured(4, th ? 64 : 12, true, [&](const DL& a) { factors("4x4", a); });
    structured(5, th ? 24 : 3, true, [&](const DL& a) { factors("5x5", a); });
    mc::bound("shapes", "1x1..4x3 exhaustive over {-1,0,2} / {0,1,-2} / {0,1}; 4x4,5x5 structured with every row permutation");
#elif MCP == 2
    all(1, 1, {-2, 0, 3}, [&](const DL& a) { solves<Rat, 1>("1", a, 0); });
    all(2, 2, {-2, -1, 0, 1, 3}, [&](const DL& a) { solves<Rat, 2>("2", a, 0); });
    all(3, 3, {-1, 0, 2}, [&](const DL& a) { solves<Rat, 3>("3", a, 0); });
    structured(4, th ? 64 : 12, true, [&](const DL& a) { solves<Rat, 4>("4", a, 0); });
    structured(5, th ? 24 : 4, true, [&](const DL& a) { solves<Rat, 5>("5", a, 0); });
    structured(6, th ? 6 : 1, true, [&](const DL& a) { solves<Rat, 6>("6", a, 0); });
    mc::bound("systems", "1-3 exhaustive, 4-6 structured with every row permutation and rank-deficient copies; 1, 2 and n+1 right-hand sides; every skip");
#else
    structured(4, 4, false, [&](const DL& a) { solves<double, 4>("d4", a, 1e-8, false); });
    structured(6, 2, false, [&](const DL& a) { solves<double, 6>("d6", a, 1e-7, false); });
    all(3, 3, {-1, 0, 2}, [&](const DL& a) { solves<double, 3>("d3", a, 1e-9, false); });
    for (int e : {-70, 70}) { KS = std::ldexp(1., e); structured(4, 2, false, [&](const DL& a) { solves<double, 4>("d4 scaled", a, 1e-8, false); }); all(2, 2, {-2, -1, 0, 1, 3}, [&](const DL& a) { solves<double, 2>("d2 scaled", a, 1e-9, false); }); all(3, 3, th ? std::vector<long>{-1, 0, 2} : std::vector<long>{0, 2}, [&](const DL& a) { solves<double, 3>("d3 scaled", a, 1e-9, false); }); KS = 1; }
    // permutations of right-hand sides
    for (size_t n = 1; n <= 6; ++n) { std::vector<index_t> p(n); std::iota(p.begin(), p.end(), 0);
        do { if (not mc::begin("apply", IDX++)) continue; for (int m = 1; m <= 3; ++m) for (int rm = 0; rm < 2; ++rm) {
            Dense<long> d = mx::distinct<long>(n, m), want(n, m); for (size_t i = 0; i < n; ++i) for (int j = 0; j < m; ++j) want(i, j) = d(p[i], j);
            auto q = p; if (rm) { auto v = flat<long, true>(d); detail::destructive_apply_permutation<long, true>(q.data(), v.data(), n, m); MC_CHECK((v == flat<long, true>(want)), "apply", "applying ", lat::show(p)); }
            else { auto v = flat<long, false>(d); detail::destructive_apply_permutation<long, false>(q.data(), v.data(), n, m); MC_CHECK((v == flat<long, false>(want)), "apply", "applying ", lat::show(p), " column-major"); } mc::step(); }
            mc::state(); } while (std::next_permutation(p.begin(), p.end())); }
    // order above the inline buffers
    for (int k = 0; k < 10; ++k) if (mc::begin("d26", IDX++)) {
        const size_t n = 26; Dense<double> d(n, n), X(n, 2); for (size_t i = 0; i < n; ++i) for (size_t j = 0; j < n; ++j) d(i, j) = (j == (i * 5 + k) % n ? 9 : 0) + double((i * 7 + j * 3 + k) % 5) / 8;
        for (size_t i = 0; i < n; ++i) { X(i, 0) = double(i) - 7; X(i, 1) = double((i * i) % 11); }
        auto B = mx::mul(d, X); auto A = flat<double, true>(d); auto x = flat<double, true>(B);
        bool ok = linear_solve<double, true>(A.data(), n, 2, x.data()); MC_CHECK((ok and close_to(unflat<double, true>(x.data(), n, 2), X, 1e-7)), "big", "26x26 system ", k); mc::state();
    }
    mc::bound("double", "3x3 exhaustive, 4x4 and 6x6 structured, 26x26, in units of 1 and 2^+-70; all permutations up to 6");
#endif
    mc::sample("[0 2 -1; 2 0 2; -1 2 0] plu/lup, row/col layout: permutation, parity, L*U, degenerate count; 3 systems");
}
