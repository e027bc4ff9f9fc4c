// C07: every view of a matrix agrees on which element is where.   -DKLO=.. -DKHI=.. selects kinds
#include "mc.h"
#include "kinds.h"
using namespace kn;
typedef long T;
static uint64_t IDX;
template <int K, index_t M, index_t N> void one(size_t v) {
    typedef Obj<K, T, M, N> O;
    std::string w = mc::str(kname(K), " ", M, "x", N, " v", v);
    auto G = [&](const char* g) { return mc::begin(g, IDX); };
    // ---- read views
    if (G("read")) {
        O o(v); auto& m = o.m; const auto& c = m; auto& d = o.d;
        MC_CHECK(c.rows() == M and c.cols() == N, "dims", w, " dims ", c.rows(), "x", c.cols());
        MC_CHECK(same(m, d) and same(c, d), "elem", w, " element access differs from ", mx::show(d), " got ", mx::show(mx::snap<T>(c)));
        long k = 0;
        for (auto i = c.begin(); i != c.end(); ++i, ++k) { MC_CHECK(k < M * N and T(*i) == d.v[k], "iter", w, " const iteration position ", k); if (k > M * N) break; }
        MC_CHECK(k == M * N, "iterlen", w, " iterated ", k);
        k = 0; for (auto i = m.begin(); i != m.end(); ++i, ++k) { MC_CHECK(k < M * N and T(*i) == d.v[k], "iter2", w, " iteration position ", k); if (k > M * N) break; }
        MC_CHECK(k == M * N, "iterlen2", w, " iterated ", k);
        MC_CHECK(c.end() - c.begin() == M * N, "iterdist", w, " end-begin=", (c.end() - c.begin()));
        for (long a = 0; a < M * N; ++a) for (long b = 0; b < M * N; ++b) {
            auto i = c.begin() + a; i += (b - a);
            MC_CHECK(T(*i) == d.v[b], "jump", w, " jump ", a, "->", b); MC_CHECK(i - c.begin() == b, "jumpdist", w, " distance after jump ", a, "->", b);
            if (b + 1 == M * N) continue;
            auto j = i; ++j; --j; MC_CHECK(j == i and T(*j) == d.v[b], "incdec", w, " ++/-- at ", b); mc::step();
        }
        for (index_t r = 0; r < M; ++r) {
            auto a = c.row(r); auto b = m.row(r); auto e = c[r]; auto f = m[r];
            for (index_t j = 0; j < N; ++j, ++a, ++b, ++e, ++f) {
                MC_CHECK(T(*a) == d(r, j) and T(*b) == d(r, j), "row", w, " row ", r, " elem ", j);
                MC_CHECK(T(*e) == d(r, j) and T(*f) == d(r, j), "subscript", w, " [", r, "] elem ", j);
                MC_CHECK(T(*(c.row(r) + j)) == d(r, j), "rowjump", w, " row(", r, ")+", j);
                MC_CHECK(T(c[r][j]) == d(r, j), "sub2", w, " [", r, "][", j, "]");
                MC_CHECK(a - c.row(r) == j, "rowdist", w, " row distance ", j);
                mc::step();
            }
            for (index_t q = 0; q < M; ++q) MC_CHECK((c.row(r) == c.row(q)) == (r == q), "roweq", w, " row(", r, ")==row(", q, ")");
        }
        for (index_t r = 0; r < N; ++r) {
            auto a = c.col(r); auto b = m.col(r);
            for (index_t j = 0; j < M; ++j, ++a, ++b) {
                MC_CHECK(T(*a) == d(j, r) and T(*b) == d(j, r), "col", w, " col ", r, " elem ", j);
                MC_CHECK(T(*(c.col(r) + j)) == d(j, r), "coljump", w, " col(", r, ")+", j);
                MC_CHECK(a - c.col(r) == j, "coldist", w, " col distance ", j);
                auto z = a; ++z; --z; MC_CHECK(z == a and T(*z) == d(j, r), "colincdec", w, " col ++/-- ", j);
                mc::step();
            }
            for (index_t q = 0; q < N; ++q) MC_CHECK((c.col(r) == c.col(q)) == (r == q), "coleq", w, " col(", r, ")==col(", q, ")");
        }
        mc::trace(); mc::state();
    }
    // ---- regions (inclusive row/col ranges)
    if (G("region")) {
        O o(v); auto& m = o.m; const auto& c = m; auto& d = o.d;
        for (index_t r0 = 0; r0 < M; ++r0) for (index_t r1 = r0; r1 < M; ++r1) for (index_t c0 = 0; c0 < N; ++c0) for (index_t c1 = c0; c1 < N; ++c1) {
            MatrixRegion g({r0, c0}, {r1, c1});
            std::vector<T> want, got, got2;
            for (index_t i = r0; i <= r1; ++i) for (index_t j = c0; j <= c1; ++j) want.push_back(d(i, j));
            auto e = c.region_end(g); for (auto i = c.region_begin(g); i != e and got.size() < 40; ++i) got.push_back(T(*i));
            auto e2 = m.region_end(g); for (auto i = m.region_begin(g); i != e2 and got2.size() < 40; ++i) got2.push_back(T(*i));
            MC_CHECK(got == want and got2 == want, "region", w, " region (", r0, ",", c0, ")-(", r1, ",", c1, ") gives ", lat::show(got), " want ", lat::show(want));
            MC_CHECK(size_t(e - c.region_begin(g)) == want.size(), "regiondist", w, " region distance");
            for (size_t k = 0; k < want.size(); ++k) MC_CHECK(T(*(c.region_begin(g) + k)) == want[k], "regionjump", w, " region (", r0, ",", c0, ")-(", r1, ",", c1, ")+", k);
            mc::step();
        }
        mc::trace();
    }
    // ---- writes through every view change exactly one element, visible everywhere
    if constexpr (is_flat(K)) if (G("write")) {
        for (index_t r = 0; r < M; ++r) for (index_t q = 0; q < N; ++q) for (int how = 0; how < 9; ++how) {
            O o(v); auto& m = o.m; auto want = o.d; T x = 1000 + how; want(r, q) = x;
            bool done = true;
            switch (how) {
                case 0: { auto&& z = m.set(r, q, x); MC_CHECK(T(z) == x, "setret", w, " set returns ", T(z)); break; }
                case 1: m(r, q) = x; break;
                case 2: m[r][q] = x; break;
                case 3: *(m.begin() + (r * N + q)) = x; break;
                case 4: *(m.row(r) + q) = x; break;
                case 5: *(m.col(q) + r) = x; break;
                case 6: { MatrixRegion g({r, q}, {M - 1, N - 1}); *m.region_begin(g) = x; break; }
                case 7: m(r, q) += x - want(r, q) + (x - o.d(r, q)) - (x - want(r, q)); want(r, q) = o.d(r, q) + (x - o.d(r, q)); break;
                case 8: { auto t = m.as_transpose(); MC_CHECK(same(t, mx::tr(o.d)), "txview", w, " as_transpose shows ", mx::show(mx::snap<T>(t))); t(q, r) = x; MC_CHECK(same(t, mx::tr(want)), "txview2", w, " write through as_transpose"); break; }
            }
            MC_CHECK(not done or same(m, want), "write", w, " write(", r, ",", q, ") how=", how, " got ", mx::show(mx::snap<T>(m)), " want ", mx::show(want));
            long k = 0; for (auto i = m.data_begin(); i != m.data_end(); ++i, ++k) {
                long a = is_col(K) ? k % M : k / N, b = is_col(K) ? k / M : k % N;
                MC_CHECK(*i == want(a, b), "flat", w, " flat position ", k, " after how=", how);
            }
            MC_CHECK(k == M * N, "flatlen", w, " flat length ", k);
            if (is_wrap(K)) { bool ok = true; for (long k = 0; k < M * N; ++k) { long a = is_col(K) ? k % M : k / N, b = is_col(K) ? k / M : k % N; ok = ok and o.buf[k] == want(a, b); } MC_CHECK(ok, "wrapbuf", w, " wrapped memory does not show the write"); }
            mc::step();
        }
        O o(v); o.m.set_zero(); MC_CHECK(same(o.m, Dense<T>(M, N)), "zero", w, " set_zero");
        o.m.set_identity(); Dense<T> I(M, N); for (index_t i = 0; i < std::min(M, N); ++i) I(i, i) = 1;
        MC_CHECK(same(o.m, I), "identity", w, " set_identity gives ", mx::show(mx::snap<T>(o.m)));
        mc::trace();
    }
    if constexpr (is_diag(K)) if (G("write")) {
        for (index_t i = 0; i < std::min(M, N); ++i) for (int how = 0; how < 2; ++how) {
            O o(v); auto want = o.d; want(i, i) = 777;
            if (how) o.m.diagonal(i) = 777; else *(o.m.diagonal_begin() + i) = 777;
            MC_CHECK(same(o.m, want), "write", w, " diagonal write ", i); mc::step();
            MC_CHECK(o.m.diagonal_end() - o.m.diagonal_begin() == std::min(M, N), "diaglen", w, " diagonal length");
        }
        O o(v); o.m.set_zero(); MC_CHECK(same(o.m, Dense<T>(M, N)), "zero", w, " set_zero");
        o.m.set_identity(); Dense<T> I(M, N); for (index_t i = 0; i < std::min(M, N); ++i) I(i, i) = 1;
        MC_CHECK(same(o.m, I), "identity", w, " set_identity gives ", mx::show(mx::snap<T>(o.m)));
        mc::trace();
    }
    // ---- views as standard ranges: rows, columns and the whole sequence sorted, reversed, rotated, copied into each other
    if constexpr (is_flat(K)) if (G("range")) {
        for (int how = 0; how < 5; ++how) for (index_t r = 0; r < std::max(M, N); ++r) for (index_t q = 0; q < std::max(M, N); ++q) {
            O o(v); auto& m = o.m; auto want = o.d; std::vector<T> x;
            if (how == 0) { if (r >= M or q) continue; std::reverse(m.row(r), m.row(r) + N); for (index_t j = 0; j < N; ++j) want(r, j) = o.d(r, N - 1 - j); }
            if (how == 1) { if (r >= N or q) continue; std::sort(m.col(r), m.col(r) + M); for (index_t i = 0; i < M; ++i) x.push_back(o.d(i, r)); std::sort(x.begin(), x.end()); for (index_t i = 0; i < M; ++i) want(i, r) = x[i]; }
            if (how == 2) { if (q >= M * N or r) continue; std::rotate(m.begin(), m.begin() + q, m.end()); for (long k = 0; k < M * N; ++k) want.v[k] = o.d.v[(k + q) % (M * N)]; }
            if (how == 3) { if (r >= N or q >= N) continue; std::swap_ranges(m.col(r), m.col(r) + M, m.col(q)); for (index_t i = 0; i < M; ++i) { want(i, r) = o.d(i, q); want(i, q) = o.d(i, r); } }
            if (how == 4) { if (r >= M or q >= N) continue; const auto& c = m; std::copy(c.row(r), c.row(r) + std::min(M, N), m.col(q)); for (index_t i = 0; i < std::min(M, N); ++i) want(i, q) = want(r, i); }
            MC_CHECK(same(m, want), "range", w, " algorithm ", how, " on ", r, ",", q, " gives ", mx::show(mx::snap<T>(m)), " want ", mx::show(want));
            mc::step();
        }
        O a(v), b(v); MC_CHECK(not (a.m.begin() == b.m.begin()) and not (a.m.row(0) == b.m.row(0)) and not (a.m.col(0) == b.m.col(0)), "iterobj", w, " iterators of different matrices compare equal");
        mc::trace();
    }
#ifdef GEOMC_MTX_CHECK_BOUNDS
    // ---- bounds-checked build: exactly the coordinates outside of the matrix are refused, nothing is written
    if (G("bounds")) {
        O o(v); auto& m = o.m; const auto& c = m; auto refused = [](auto f) { try { f(); } catch (std::out_of_range&) { return true; } return false; };
        for (index_t r = -2; r <= M + 1; ++r) for (index_t q = -2; q <= N + 1; ++q) {
            bool in = r >= 0 and r < M and q >= 0 and q < N;
            MC_CHECK(refused([&] { volatile T x = T(c(r, q)); (void) x; }) == not in, "bounds", w, " read (", r, ",", q, ") inside=", in);
            MC_CHECK(refused([&] { volatile T x = T(m(r, q)); (void) x; }) == not in, "bounds", w, " read (", r, ",", q, ") inside=", in);
            if constexpr (is_flat(K)) if (not in) {
                MC_CHECK(refused([&] { m.set(r, q, 31337); }), "bounds", w, " set(", r, ",", q, ") is accepted");
                MC_CHECK(refused([&] { m(r, q) = 31337; }), "bounds", w, " (", r, ",", q, ")= is accepted");
                MC_CHECK(same(m, o.d), "bounds", w, " a refused write changed the matrix");
            }
            mc::step();
        }
        mc::trace();
    }
#endif
    // ---- text: rows on lines, elements in order
    if (G("text")) {
        O o(v); std::ostringstream s; s << o.m; std::string t = s.str(); std::vector<T> got; size_t lines = std::count(t.begin(), t.end(), '\n');
        for (auto& ch : t) if (ch == '[' or ch == ']') ch = ' ';
        std::istringstream in(t); for (T x; in >> x;) got.push_back(x);
        MC_CHECK(got == o.d.v and lines == size_t(M), "text", w, " printed as ", s.str(), " (", lines, " lines)");
        mc::trace();
    }
    // ---- copies into every other kind; value semantics
    if (G("copy")) {
        O o(v); const auto& m = o.m; auto& d = o.d;
        { auto cp = m; MC_CHECK(same(cp, d), "copyctor", w, " copy construction"); 
          if constexpr (is_flat(K)) { cp.set(0, 0, 4242); bool shared = is_wrap(K) or K == SH; MC_CHECK((T(m(0, 0)) == 4242) == shared, "copyalias", w, " copy ", shared ? "must share" : "must not share", " memory"); o.content(v); }
          if constexpr (is_diag(K)) { cp.diagonal(0) = 4242; MC_CHECK(same(m, d), "copyalias", w, " diag copy aliases"); } }
        SimpleMatrix<T, M, N> s; SimpleMatrix<T, M, N, COL_MAJOR> sc; SimpleMatrix<T, 0, 0> dy(M, N); SimpleMatrix<T, 0, N, COL_MAJOR> hc(M, N); T buf[M * N]; WrapperMatrix<T, M, N, COL_MAJOR> wc(buf);
        mtxcopy(&s, m); MC_CHECK(same(s, d), "copy", w, " -> static row: ", mx::show(mx::snap<T>(s)));
        mtxcopy(&sc, m); MC_CHECK(same(sc, d), "copy", w, " -> static col: ", mx::show(mx::snap<T>(sc)));
        mtxcopy(&dy, m); MC_CHECK(same(dy, d), "copy", w, " -> dyn: ", mx::show(mx::snap<T>(dy)));
        mtxcopy(&hc, m); MC_CHECK(same(hc, d), "copy", w, " -> 0xN col: ", mx::show(mx::snap<T>(hc)));
        mtxcopy(&wc, m); MC_CHECK(same(wc, d), "copy", w, " -> wrapped col: ", mx::show(mx::snap<T>(wc)));
        SimpleMatrix<T, M, N> s2(m); MC_CHECK(same(s2, d), "convctor", w, " converting construction static row");
        SimpleMatrix<T, M, N, COL_MAJOR> s3(m); MC_CHECK(same(s3, d), "convctor", w, " converting construction static col");
        SimpleMatrix<T, 0, 0> s4(m); MC_CHECK(same(s4, d), "convctor", w, " converting construction dyn");
        SimpleMatrix<T, 0, 0, COL_MAJOR> s5(m); MC_CHECK(same(s5, d), "convctor", w, " converting construction dyn col");
        if constexpr (is_diag(K)) { DiagMatrix<T, M, N> g; DiagMatrix<T, 0, 0> gd(M, N); mtxcopy(&g, m); mtxcopy(&gd, m); MC_CHECK(same(g, d) and same(gd, d), "copy", w, " -> diag"); }
        if constexpr (is_perm(K)) { PermutationMatrix<N> g; PermutationMatrix<0> gd(N); mtxcopy(&g, m); mtxcopy(&gd, m); MC_CHECK(same(g, d) and same(gd, d), "copy", w, " -> perm"); }
        // vectors
        if constexpr (M == 1 and N > 1) { Vec<T, N> x; mtxcopy(&x, m); for (index_t i = 0; i < N; ++i) MC_CHECK(x[i] == d(0, i), "vec", w, " row -> Vec"); if constexpr (is_flat(K)) { O q(1 - v); mtxcopy(&q.m, x); MC_CHECK(same(q.m, d), "vec", w, " Vec -> row"); } }
        if constexpr (N == 1 and M > 1) { Vec<T, M> x; mtxcopy(&x, m); for (index_t i = 0; i < M; ++i) MC_CHECK(x[i] == d(i, 0), "vec", w, " col -> Vec"); if constexpr (is_flat(K)) { O q(1 - v); mtxcopy(&q.m, x); MC_CHECK(same(q.m, d), "vec", w, " Vec -> col"); } }
        MC_CHECK(same(m, d), "source", w, " source changed by copying");
        // assignment
        { O p((v + 1) % O::variants()); if constexpr (not is_wrap(K)) { p.m = m; MC_CHECK(same(p.m, d), "assign", w, " assignment"); } }
        mc::step(14); mc::trace();
    }
}
// construction from data and lists
template <index_t M, index_t N> void ctors() {
    if (not mc::begin("ctor", IDX)) return;
    std::string w = mc::str(M, "x", N);
    T src[M * N]; for (long i = 0; i < M * N; ++i) src[i] = 10 + i;
    Dense<T> dr(M, N), dc(M, N);
    for (long i = 0; i < M * N; ++i) { dr(i / N, i % N) = src[i]; dc(i % M, i / M) = src[i]; }
    MC_CHECK(same(SimpleMatrix<T, M, N>((const T*) src), dr), "data", w, " row-major from array");
    MC_CHECK((same(SimpleMatrix<T, M, N, COL_MAJOR>((const T*) src), dc)), "data", w, " col-major from array");
    MC_CHECK((same(SimpleMatrix<T, 0, 0>((const T*) src, M, N), dr)), "data", w, " dyn row-major from array");
    MC_CHECK((same(SimpleMatrix<T, 0, 0, COL_MAJOR>((const T*) src, M, N), dc)), "data", w, " dyn col-major from array");
    MC_CHECK((same(WrapperMatrix<T, M, N>(src), dr) and same(WrapperMatrix<T, M, N, COL_MAJOR>(src), dc)), "wrap", w, " wrapped static");
    MC_CHECK((same(WrapperMatrix<T, 0, 0>(src, M, N), dr) and same(WrapperMatrix<T, 0, 0, COL_MAJOR>(src, M, N), dc)), "wrap", w, " wrapped dynamic");
    MC_CHECK((same(WrapperMatrix<T, M, 0>(src, N), dr) and same(WrapperMatrix<T, 0, N>(src, M), dr)), "wrap", w, " wrapped half-dynamic row");
    MC_CHECK((same(WrapperMatrix<T, M, 0, COL_MAJOR>(src, N), dc) and same(WrapperMatrix<T, 0, N, COL_MAJOR>(src, M), dc)), "wrap", w, " wrapped half-dynamic col");
    Dense<T> I(M, N); for (index_t i = 0; i < std::min(M, N); ++i) I(i, i) = 1;
    MC_CHECK((same(SimpleMatrix<T, M, N>(), I) and same(SimpleMatrix<T, 0, 0, COL_MAJOR>(M, N), I) and same(DiagMatrix<T, M, N>(), I) and same(DiagMatrix<T, 0, 0>(M, N), I)), "default", w, " default construction is not the identity");
    if constexpr (M == 2 and N == 3) {
        SimpleMatrix<T, 2, 3> a({10, 11, 12, 13, 14, 15}); MC_CHECK(same(a, dr), "list", w, " list row");
        SimpleMatrix<T, 2, 3, COL_MAJOR> b({10, 11, 12, 13, 14, 15}); MC_CHECK(same(b, dc), "list", w, " list col");
        SimpleMatrix<T, 0, 0> c({10, 11, 12, 13, 14, 15}, 2, 3); MC_CHECK(same(c, dr), "list", w, " list dyn");
        SimpleMatrix<T, 2, 3> e({{10, 11, 12}, {13, 14, 15}}); MC_CHECK(same(e, dr), "list", w, " list of rows");
        SimpleMatrix<T, 2, 3, COL_MAJOR> f({{10, 11}, {12, 13}, {14, 15}}); MC_CHECK(same(f, dc), "list", w, " list of columns");
    }
    mc::step(10); mc::trace(); mc::state();
}
void mc_run() {
    IDX = 0;
    kn::each_kind([&](auto kc) {
        constexpr int K = decltype(kc)::value;
        if constexpr (K >= KLO and K <= KHI) each_shape([&](auto s) {
            typedef decltype(s) S;
            if constexpr (Obj<K, T, S::m, S::n>::valid()) { size_t nv = Obj<K, T, S::m, S::n>::variants(); for (size_t v = 0; v < nv; ++v) { one<K, S::m, S::n>(v); ++IDX; } }
        });
    });
    if (KLO == 0) each_shape([&](auto s) { typedef decltype(s) S; ctors<S::m, S::n>(); ++IDX; });
    mc::bound("shapes", "12 shapes from 1x1 to 4x4"); mc::bound("kinds", mc::str(KLO, "-", KHI));
    mc::sample("static-col 2x3: element access, iteration, rows, columns, all regions, 9 ways of writing each element, copies into 5 kinds");
}
