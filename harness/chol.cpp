// C13: Cholesky factorisation.
#include "mc.h"
#include "fam.h"
#include <geomc/linalg/Cholesky.h>
using namespace geom; using mx::Dense; using namespace fam;
static uint64_t IDX;
/// leading principal minors; sign of definiteness: 1 positive definite, 0 boundary (a zero minor comes first), -1 not
int definite(const DL& a) { for (size_t k = 1; k <= a.r; ++k) { DL m(k, k); for (size_t i = 0; i < k; ++i) for (size_t j = 0; j < k; ++j) m(i, j) = a(i, j); long d = det(m); if (d < 0) return -1; if (d == 0) return 0; } return 1; }
template <index_t N> void one(const char* grp, const DL& a) {
    if (not mc::begin(grp, IDX++)) return;
    int want = definite(a); Dense<double> d = as<double>(a); std::string w = mx::show(a);
    auto chk = [&](bool ok, const Dense<double>& L, const char* how) {
        if (want == 1 or (want == -1) or N == 1) MC_CHECK(ok == (want == 1), "flag", how, " ", w, " returned ", ok);
        if (want != 1 or not ok) return;
        for (size_t i = 0; i < N; ++i) { MC_CHECK(L(i, i) > 0, "diag", how, " ", w, " diagonal ", i, " is ", L(i, i)); for (size_t j = i + 1; j < N; ++j) MC_CHECK(L(i, j) == 0, "lower", how, " ", w, " element above the diagonal ", L(i, j)); }
        MC_CHECK(close_to(mx::mul(L, mx::tr(L)), d, 1e-9), "factor", how, " ", w, " L*Lt = ", mx::show(mx::mul(L, mx::tr(L))));
    };
    auto mtx = [&](auto& m, const char* how) { mx::fill(m, d); bool ok = cholesky(&m); chk(ok, mx::snap<double>(m), how); mc::step(); };
    { SimpleMatrix<double, N, N> m; mtx(m, "static row"); } { SimpleMatrix<double, N, N, COL_MAJOR> m; mtx(m, "static col"); }
    { SimpleMatrix<double, 0, 0> m(N, N); mtx(m, "dyn row"); } { SimpleMatrix<double, 0, 0, COL_MAJOR> m(N, N); mtx(m, "dyn col"); }
    { SimpleMatrix<double, N, 0> m(N, N); mtx(m, "half-dynamic"); } { double b[N * N]; WrapperMatrix<double, N, N, COL_MAJOR> m(b); mtx(m, "wrapped"); }
    { double v[N * N + 2]; v[0] = v[N * N + 1] = 5; for (int i = 0; i < N * N; ++i) v[i + 1] = d.v[i]; bool ok = cholesky<double, true>(v + 1, N); Dense<double> L(N, N); for (int i = 0; i < N * N; ++i) L.v[i] = v[i + 1]; chk(ok, L, "raw row"); MC_CHECK(v[0] == 5 and v[N * N + 1] == 5, "bounds", "wrote outside the array"); }
    { double v[N * N]; for (int i = 0; i < N * N; ++i) v[i] = d.v[i]; bool ok = cholesky<double, false>(v, N); Dense<double> L(N, N); for (int i = 0; i < N * N; ++i) L(i % N, i / N) = v[i]; chk(ok, L, "raw col"); }
    { SimpleMatrix<float, N, N> m; mx::fill(m, as<float>(a)); bool ok = cholesky(&m); if (want) MC_CHECK(ok == (want == 1), "flag", "float ", w, " returned ", ok); }
    for (int e : {-40, 40}) { // other units: the factor scales with the square root
        double k = std::ldexp(1., e); auto sc = [](Dense<double> x, double s) { for (double& v : x.v) v *= s; return x; };
        { SimpleMatrix<double, N, N> m; mx::fill(m, sc(d, k * k)); bool ok = cholesky(&m); chk(ok, sc(mx::snap<double>(m), 1 / k), "static row, scaled"); }
        { SimpleMatrix<double, 0, 0, COL_MAJOR> m(N, N); mx::fill(m, sc(d, k * k)); bool ok = cholesky(&m); chk(ok, sc(mx::snap<double>(m), 1 / k), "dyn col, scaled"); } mc::step(2);
    }
    mc::outcome(want == 1 ? "positive definite" : want ? "indefinite" : "semidefinite boundary"); mc::trace(); mc::state();
}
template <index_t N> void sym(const char* grp, const std::vector<long>& dg, const std::vector<long>& off) {
    const size_t no = N * (N - 1) / 2;
    auto go = [&](const std::vector<long>& x) { DL m(N, N); size_t k = N; for (size_t i = 0; i < N; ++i) { m(i, i) = x[i]; for (size_t j = 0; j < i; ++j) m(i, j) = m(j, i) = x[k++]; } one<N>(grp, m); };
    std::vector<size_t> d(N + no, 0); std::vector<long> x(N + no);
    while (true) {
        for (size_t i = 0; i < N + no; ++i) x[i] = i < N ? dg[d[i]] : off[d[i]];
        go(x);
        size_t k = 0; while (k < N + no and ++d[k] == (k < N ? dg : off).size()) d[k++] = 0;
        if (k == N + no) break;
    }
}
void mc_run() {
    IDX = 0; const bool th = mc::thorough();
    sym<1>("n1", {-3, -1, 0, 1, 2, 9}, {}); sym<2>("n2", {-2, -1, 0, 1, 2, 3, 5}, {-3, -2, -1, 0, 1, 2, 3});
    sym<3>("n3", {-1, 0, 1, 2, 4}, th ? std::vector<long>{-2, -1, 0, 1, 2} : std::vector<long>{-2, 0, 1});
    sym<4>("n4", th ? std::vector<long>{1, 3, 5} : std::vector<long>{1, 4}, {-1, 0, 2}); 
    // L*Lt for structured L (positive definite), and the same with one diagonal entry lowered below its pivot (indefinite)
    auto fromL = [&](auto nc) { constexpr index_t N = decltype(nc)::value; structured(N, N == 4 ? 16 : (th ? 8 : 2), false, [&](const DL& q) { DL L(N, N); for (int i = 0; i < N; ++i) { L(i, i) = 1 + std::abs(q(i, i)); for (int j = 0; j < i; ++j) L(i, j) = q(i, j); }
        DL a = mx::mul(L, mx::tr(L)); one<N>("LLt", a); for (int k = 0; k < N; ++k) { DL b = a; b(k, k) -= L(k, k) * L(k, k) + 1; one<N>("LLt-", b); } }); };
    fromL(std::integral_constant<index_t, 4>()); fromL(std::integral_constant<index_t, 5>());
    if (mc::begin("nonsq", IDX++)) { SimpleMatrix<double, 0, 0> m(2, 3), q(3, 2); MC_CHECK(not cholesky(&m) and not cholesky(&q), "nonsquare", "nonsquare matrix accepted"); mc::state(); }
    mc::bound("matrices", "all symmetric n<=3 over small integers, n=4 over {1,4}x{-1,0,2}, L*Lt families n=4,5 with each pivot made negative");
    mc::sample("[4 2; 2 1] semidefinite: no verdict beyond rounding; [2 1; 1 2]: 9 variants factor back; [1 2; 2 1] rejected");
}
