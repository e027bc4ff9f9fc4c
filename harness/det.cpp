// C10: determinants and inverses.   -DMCP=1 exhaustive n<=3 exact, 2 structured n=4..6 exact, 3 double, 4 diag/perm
#include "mc.h"
#include "fam.h"
using namespace geom; using mx::Dense; using namespace fam;
static uint64_t IDX;
static double KS = 1; // floating point matrices are multiplied by it (a power of two)
template <typename T> T unit() { if constexpr (std::is_floating_point_v<T>) return T(KS); else return T(1); }
template <typename T> Dense<T> eye(size_t n) { Dense<T> d(n, n); for (size_t i = 0; i < n; ++i) d(i, i) = T(1); return d; }
template <typename T, typename Mx> bool kn_same(const Mx& m, const Dense<T>& d) { return mx::snap<T>(m) == d; }
template <typename T> SimpleMatrix<T, 0, 0> wrapd(const Dense<T>& d) { SimpleMatrix<T, 0, 0> m(d.r, d.c); mx::fill(m, d); return m; }
template <typename T, typename Mi> bool isinv(const Mi& m, Dense<T> d, double tol) {
    auto i = mx::snap<T>(m); for (T& x : d.v) x = x / unit<T>(); for (T& x : i.v) x = x * unit<T>();
    return close_to(mx::mul(d, i), eye<T>(d.r), tol) and close_to(mx::mul(i, d), eye<T>(d.r), tol);
}
template <typename T, index_t N> void one(const DL& a, long dt, double tol, bool singular_checks) {
    Dense<T> d = as<T>(a); const T want = T(dt); T volume(1); for (T& x : d.v) x = x * unit<T>(); for (index_t i = 0; i < N; ++i) volume = volume * unit<T>();
    std::string w = mx::show(a);
    SimpleMatrix<T, N, N> s; SimpleMatrix<T, N, N, COL_MAJOR> c; SimpleMatrix<T, 0, 0> y(N, N); SimpleMatrix<T, 0, 0, COL_MAJOR> z(N, N); SimpleMatrix<T, N, 0> h(N, N); T buf[N * N]; WrapperMatrix<T, 0, 0, COL_MAJOR> g(buf, N, N);
    mx::fill(s, d); mx::fill(c, d); mx::fill(y, d); mx::fill(z, d); mx::fill(h, d); mx::fill(g, d);
    const T* rm = s.data_begin();
    const bool sing = dt == 0;
    if (sing and not singular_checks) return;
    auto D = [&](T v, const char* how) { v = v / volume; MC_CHECK(near(v, want, tol), "det", how, " of ", w, " x ", unit<T>(), " = ", v, " want ", dt); };
    D(det(s), "det static row"); D(det(c), "det static col"); D(det(y), "det dyn row"); D(det(z), "det dyn col"); D(det(h), "det half-dynamic"); D(det(g), "det wrapped");
    D(detNxN(rm, N), "detNxN");
    { T t[N * N]; std::copy(rm, rm + N * N, t); D(det_destructive(t, N), "det_destructive"); }
    if constexpr (N == 2) { D(det2x2(rm), "det2x2"); D(det2x2(rm[0], rm[1], rm[2], rm[3]), "det2x2"); }
    if constexpr (N == 3) { D(det3x3(rm), "det3x3"); D(det3x3(rm[0], rm[1], rm[2], rm[3], rm[4], rm[5], rm[6], rm[7], rm[8]), "det3x3"); }
    if constexpr (N == 4) D(det4x4(rm), "det4x4");
    MC_CHECK((kn_same(s, d) and kn_same(y, d) and kn_same(c, d)), "const", "det changed its argument ", w);
    // raw array inverses: result, or untouched output
    auto raw = [&](auto f, const char* how, const T* src) {
        T o[N * N]; std::fill(o, o + N * N, T(77)); bool ok = f(o, src);
        MC_CHECK(ok == not sing, "invflag", how, " of ", w, " returned ", ok);
        if (ok) { Dense<T> i(N, N); std::copy(o, o + N * N, i.v.begin()); MC_CHECK((isinv(wrapd(i), d, tol)), "inv", how, " of ", w, " gives ", mx::show(i)); }
        else { bool un = true; for (T x : o) un = un and x == T(77); MC_CHECK(un, "invtouch", how, " changed its output on singular ", w); }
    };
    if constexpr (N == 2) raw([](T* o, const T* m) { return inv2x2(o, m); }, "inv2x2", rm);
    if constexpr (N == 3) raw([](T* o, const T* m) { return inv3x3(o, m); }, "inv3x3", rm);
    if constexpr (N == 4) raw([](T* o, const T* m) { return inv4x4(o, m); }, "inv4x4", rm);
    raw([](T* o, const T* m) { T t[N * N]; std::copy(m, m + N * N, t); return invNxN(o, t, N); }, "invNxN(n)", rm);
    raw([](T* o, const T* m) { T t[N * N]; std::copy(m, m + N * N, t); return invNxN<T, N>(o, t); }, "invNxN<N>", rm);
    // matrix inverses, every source x destination, plus in place
    auto R = [&](bool ok, const auto& m, const char* how) { MC_CHECK(ok == not sing, "invflag", how, " of ", w, " returned ", ok); if (ok and not sing) MC_CHECK((isinv(m, d, tol)), "inv", how, " of ", w, " gives ", mx::show(mx::snap<T>(m))); };
    auto from = [&](auto& m, const char* how) {
        bool ok = false; auto r = inv(m, &ok); R(ok, r, how);
        { SimpleMatrix<T, N, N> o; R(inv(&o, m), o, how); } { SimpleMatrix<T, N, N, COL_MAJOR> o; R(inv(&o, m), o, how); }
        { SimpleMatrix<T, 0, 0> o(N, N); R(inv(&o, m), o, how); } { SimpleMatrix<T, 0, 0, COL_MAJOR> o(N, N); R(inv(&o, m), o, how); }
        MC_CHECK((kn_same(m, d)), "const", how, " inv changed its source ", w);
        R(inv(&m, m), m, how); mx::fill(m, d);
        mc::step(6);
    };
    from(s, "inv static row"); from(c, "inv static col"); from(y, "inv dyn row"); from(z, "inv dyn col"); from(g, "inv wrapped");
    if constexpr (N > 1) { // source is a transposed view of the destination
        auto t = s.as_transpose(); bool ok = inv(&s, t); MC_CHECK(ok == not sing, "invflag", "inv of a transposed view of ", w);
        if (ok) { MC_CHECK((isinv(s, mx::tr(d), tol)), "invview", "inv over its own transposed view of ", w, " gives ", mx::show(mx::snap<T>(s))); } mx::fill(s, d);
    }
    mc::outcome(sing ? "singular" : "invertible"); mc::trace(); mc::state();
}
template <typename T, index_t N> void run(const char* grp, const DL& a, double tol, bool sc = true) {
    if (not mc::begin(grp, IDX++)) return;
    long dt = det(a); reset();
    one<T, N>(a, dt, tol, sc);
}
void mc_run() {
    IDX = 0;
    const bool th = mc::thorough();
#if MCP == 1
    all(1, 1, {-2, -1, 0, 1, 3}, [&](const DL& a) { run<Rat, 1>("n1", a, 0); });
    all(2, 2, {-2, -1, 0, 1, 3}, [&](const DL& a) { run<Rat, 2>("n2", a, 0); });
    all(3, 3, th ? std::vector<long>{-1, 0, 1, 2} : std::vector<long>{-1, 0, 2}, [&](const DL& a) { run<Rat, 3>("n3", a, 0); });
    mc::bound("entries", th ? "1x1,2x2 {-2,-1,0,1,3}; 3x3 {-1,0,1,2}" : "1x1,2x2 {-2,-1,0,1,3}; 3x3 {-1,0,2}");
#elif MCP == 2
    if (th) all(4, 4, {0, 1}, [&](const DL& a) { run<Rat, 4>("n4all", a, 0); });
    structured(4, th ? 64 : 16, true, [&](const DL& a) { run<Rat, 4>("n4", a, 0); });
    structured(5, th ? 24 : 4, true, [&](const DL& a) { run<Rat, 5>("n5", a, 0); });
    if (th) structured(6, 4, true, [&](const DL& a) { run<Rat, 6>("n6", a, 0); });
    mc::bound("families", "P L U with every permutation, plus rank-deficient copies, n=4,5 (6 when thorough)");
#elif MCP == 3
    all(2, 2, {-2, -1, 0, 1, 4}, [&](const DL& a) { run<double, 2>("d2", a, 1e-9); });
    all(3, 3, {-1, 0, 2}, [&](const DL& a) { run<double, 3>("d3", a, 1e-9, false); });
    structured(4, th ? 32 : 8, false, [&](const DL& a) { run<double, 4>("d4", a, 1e-8, false); });
    structured(5, th ? 12 : 3, false, [&](const DL& a) { run<double, 5>("d5", a, 1e-8, false); });
    for (int e : {-60, 60}) { // far from 1: nothing is "nearly singular"
        KS = std::ldexp(1., e); all(2, 2, {-2, -1, 0, 1, 4}, [&](const DL& a) { run<double, 2>("d2 scaled", a, 1e-9); }); all(3, 3, th ? std::vector<long>{-1, 0, 2} : std::vector<long>{0, 2}, [&](const DL& a) { run<double, 3>("d3 scaled", a, 1e-9, false); });
        structured(4, 3, false, [&](const DL& a) { run<double, 4>("d4 scaled", a, 1e-8, false); }); structured(5, 1, false, [&](const DL& a) { run<double, 5>("d5 scaled", a, 1e-8, false); }); KS = 1;
    }
    for (int e : {-12, 12}) { KS = std::ldexp(1., e); all(2, 2, {-2, -1, 0, 1, 4}, [&](const DL& a) { run<float, 2>("f2 scaled", a, 1e-4); }); all(3, 3, {0, 2}, [&](const DL& a) { run<float, 3>("f3 scaled", a, 1e-4, false); }); structured(4, 3, false, [&](const DL& a) { run<float, 4>("f4 scaled", a, 2e-3, false); }); KS = 1; }
    mc::bound("units", "1, 2^-60, 2^60 (double), 2^-12, 2^12 (float)");
    // more than 64 elements: heap buffers
    for (int k = 0; k < (th ? 60 : 12); ++k) if (mc::begin("d9", IDX++)) {
        DL a(9, 9); for (int i = 0; i < 9; ++i) for (int j = 0; j < 9; ++j) a(i, j) = (i == (j * 2 + k) % 9) ? 3 : ((i * 7 + j * 5 + k) % 4 == 0 ? 1 : 0);
        long dt = det(a); if (dt == 0) continue;
        one<double, 9>(a, dt, 1e-7, false);
    }
#else
    // integers: closed forms are exact
    all(2, 2, {-3, -1, 0, 1, 2}, [&](const DL& a) { if (mc::begin("i2", IDX++)) { long d = det(a); SimpleMatrix<long, 2, 2> m; mx::fill(m, a); MC_CHECK(geom::det(m) == d, "detint", mx::show(a), " det ", geom::det(m), " want ", d); mc::step(); mc::state(); } });
    all(3, 3, {-1, 0, 2}, [&](const DL& a) { if (mc::begin("i3", IDX++)) { long d = det(a); SimpleMatrix<long, 3, 3, COL_MAJOR> m; mx::fill(m, a); MC_CHECK(geom::det(m) == d, "detint", mx::show(a), " det ", geom::det(m), " want ", d); mc::step(); mc::state(); } });
    structured(4, 16, true, [&](const DL& a) { if (mc::begin("i4", IDX++)) { long d = det(a); SimpleMatrix<long, 4, 4> m; mx::fill(m, a); MC_CHECK(geom::det(m) == d, "detint", mx::show(a), " det ", geom::det(m), " want ", d); mc::step(); mc::state(); } });
    // diagonal
    auto diag = [&](auto nc) {
        constexpr index_t N = decltype(nc)::value;
        all(1, N, {-2, 0, 1, 3}, [&](const DL& v) {
            if (not mc::begin("diag", IDX++)) return;
            long p = 1; bool sing = false; Dense<double> d(N, N); DiagMatrix<double, N, N> m; DiagMatrix<double, 0, 0> y(N, N);
            for (index_t i = 0; i < N; ++i) { p *= v.v[i]; m.diagonal(i) = y.diagonal(i) = d(i, i) = v.v[i]; } sing = p == 0;
            std::string w = "diag " + mx::show(v);
            MC_CHECK(det(m) == p and det(y) == p, "detdiag", w, " det ", det(m), "/", det(y));
            auto R = [&](bool ok, const auto& o, const char* h) { MC_CHECK(ok == not sing, "invflag", h, w, " returned ", ok); if (ok) MC_CHECK((isinv(o, d, 1e-12)), "invdiag", h, w); };
            bool ok; { auto r = inv(m, &ok); R(ok, r, "value "); } { auto r = inv(y, &ok); R(ok, r, "dyn value "); }
            { DiagMatrix<double, N, N> o; R(inv(&o, m), o, "diag "); R(inv(&o, y), o, "diag<-dyn "); } { DiagMatrix<double, 0, 0> o(N, N); R(inv(&o, m), o, "dyn<-diag "); }
            { SimpleMatrix<double, N, N> o; for (auto i = o.begin(); i != o.end(); ++i) *i = 5; R(inv(&o, m), o, "dense "); } { SimpleMatrix<double, 0, 0, COL_MAJOR> o(N, N); for (auto i = o.begin(); i != o.end(); ++i) *i = 5; R(inv(&o, y), o, "dense dyn "); }
            { auto o = m; R(inv(&o, o), o, "in place "); } { auto o = y; R(inv(&o, o), o, "in place dyn "); }
            mc::step(8); mc::state(); mc::trace();
        });
    };
    diag(std::integral_constant<index_t, 1>()); diag(std::integral_constant<index_t, 2>()); diag(std::integral_constant<index_t, 3>()); diag(std::integral_constant<index_t, 4>());
    { DiagMatrix<double, 0, 0> y(2, 3); if (mc::begin("nonsq", IDX++)) { SimpleMatrix<double, 0, 0> m(2, 3); MC_CHECK(det(y) == 0 and det(m) == 0, "nonsquare", "determinant of a nonsquare matrix is not 0"); mc::state(); } }
    auto perm = [&](auto nc) {
        constexpr index_t N = decltype(nc)::value; std::vector<index_t> p(N); std::iota(p.begin(), p.end(), 0);
        do {
            if (not mc::begin("perm", IDX++)) continue;
            PermutationMatrix<N> m; PermutationMatrix<0> y(N); m.setRowSources(p.data()); y.setRowSources(p.data());
            DL d(N, N); for (index_t i = 0; i < N; ++i) d(i, p[i]) = 1; long dt = det(d); std::string w = "perm " + lat::show(p);
            MC_CHECK(det(m) == dt and det(y) == dt, "detperm", w, " det ", det(m), "/", det(y), " want ", dt);
            { auto q = p; MC_CHECK(permutation_sign(q.data(), N) == dt, "permsign", w, " permutation_sign"); }
            auto t = mx::tr(d); bool ok = false;
            { auto r = inv(m, &ok); MC_CHECK(ok and mx::snap<long>(r) == t, "invperm", w, " inverse"); } { auto r = inv(y, &ok); MC_CHECK(ok and mx::snap<long>(r) == t, "invperm", w, " dyn inverse"); }
            { SimpleMatrix<double, N, N> o; MC_CHECK(inv(&o, m) and mx::snap<long>(o) == t, "invperm", w, " into dense"); } { PermutationMatrix<N> o; MC_CHECK(inv(&o, m) and mx::snap<long>(o) == t, "invperm", w, " into perm"); MC_CHECK(inv(&m, m) and mx::snap<long>(m) == t, "invperm", w, " in place"); }
            mc::step(6); mc::state(); mc::trace();
        } while (std::next_permutation(p.begin(), p.end()));
    };
    perm(std::integral_constant<index_t, 1>()); perm(std::integral_constant<index_t, 2>()); perm(std::integral_constant<index_t, 3>()); perm(std::integral_constant<index_t, 4>()); perm(std::integral_constant<index_t, 5>()); perm(std::integral_constant<index_t, 6>()); if (mc::thorough()) perm(std::integral_constant<index_t, 7>());
    for (index_t n : {33, 40}) if (mc::begin("bigperm", IDX++)) { // heap-buffered sign
        PermutationMatrix<0> y(n); std::vector<index_t> p(n); for (index_t i = 0; i < n; ++i) p[i] = (i * 7 + 3) % n; if (n == 40) { std::iota(p.begin(), p.end(), 0); std::swap(p[0], p[39]); std::swap(p[3], p[20]); std::swap(p[5], p[6]); }
        y.setRowSources(p.data()); long inv = 0; for (index_t i = 0; i < n; ++i) for (index_t j = 0; j < i; ++j) inv += p[j] > p[i]; MC_CHECK(det(y) == ((inv & 1) ? -1 : 1), "detperm", "big permutation ", n); mc::state();
    }
    mc::bound("diagonal", "n<=4 over {-2,0,1,3}"); mc::bound("permutations", "all of S1..S6 (S7 when thorough)");
#endif
    mc::sample("[0 2 -1; 1 0 0; 2 2 2]: 8 ways to the determinant, 25 inversions (static/dynamic/wrapped, row/col, in place)");
}
