// C09: matrix x matrix and matrix x vector products of every pair of kinds.   -DKA=left kind
#include "mc.h"
#include "kinds.h"
using namespace kn;
typedef long T;
static uint64_t IDX;
template <index_t M, index_t N, typename F> void each_dest(F f) {
    { Obj<SR, T, M, N> d(1); f(d.m, d.d, "static-row"); }
    { Obj<SC, T, M, N> d(1); f(d.m, d.d, "static-col"); }
    { Obj<DR, T, M, N> d(1); f(d.m, d.d, "dyn-row"); }
    { Obj<HC, T, M, N> d(1); f(d.m, d.d, "0xN-col"); }
    { Obj<WD, T, M, N> d(1); f(d.m, d.d, "wrap-dyn"); }
}
template <typename V> T el(const V& v, index_t i) { if constexpr (detail::IsMatrix<V>::val) return *(v.begin() + i); else return v[i]; }
template <int A, int B, index_t M, index_t K, index_t N> void prod(size_t va, size_t vb) {
    Obj<A, T, M, K> a(va); Obj<B, T, K, N> b(vb);
    std::string w = mc::str(kname(A), " v", va, " ", M, "x", K, " * ", kname(B), " v", vb, " ", K, "x", N);
    auto p = mx::mul(a.d, b.d);
    auto ops = [&] { MC_CHECK(same(a.m, a.d) and same(b.m, b.d), "operand", w, " modified an operand"); };
    { auto r = a.m * b.m; MC_CHECK(same(r, p), "op*", w, " = ", mx::show(mx::snap<T>(r)), " want ", mx::show(p)); }
    { auto r = mul(a.m, b.m); MC_CHECK(same(r, p), "mul", w, " = ", mx::show(mx::snap<T>(r)), " want ", mx::show(p)); }
    if constexpr (is_perm(A) and is_perm(B)) { // the product is itself an operand, from either side
        auto r = a.m * b.m; Obj<DR, T, N, N> x(va % 3); auto l = x.m * r; auto q = r * x.m; MC_CHECK(same(l, mx::mul(x.d, p)) and same(q, mx::mul(p, x.d)), "chain", w, ": the product as an operand");
        Vec<T, N> u, v; for (index_t i = 0; i < N; ++i) u[i] = 3 * i + 2; auto ru = r * u; auto ur = u * r; bool ok = true; for (index_t i = 0; i < N; ++i) { T e = 0, f = 0; for (index_t j = 0; j < N; ++j) { e += p(i, j) * u[j]; f += u[j] * p(j, i); } ok = ok and el(ru, i) == e and el(ur, i) == f; } MC_CHECK(ok, "chain", w, ": the product applied to a vector");
        auto t = transpose(r); MC_CHECK(same(t, mx::tr(p)), "chain", w, ": transpose of the product"); auto rr = r * r; auto xr = x.m * rr; MC_CHECK(same(rr, mx::mul(p, p)) and same(xr, mx::mul(x.d, mx::mul(p, p))), "chain", w, ": the product squared");
    }
    ops();
    each_dest<M, N>([&](auto& d, auto& d0, const char* n) { auto* r = &mul(&d, a.m, b.m); MC_CHECK(same(d, p) and (void*) r == (void*) &d, "mulinto", w, " into ", n, " = ", mx::show(mx::snap<T>(d)), " want ", mx::show(p)); });
    if constexpr (is_flat(A) and is_flat(B)) each_dest<M, N>([&](auto& d, auto& d0, const char* n) {
        auto q = d0; for (size_t i = 0; i < q.v.size(); ++i) q.v[i] += p.v[i];
        mul_acc(&d, a.m, b.m); MC_CHECK(same(d, q), "mulacc", w, " accumulated into ", n, " = ", mx::show(mx::snap<T>(d)), " want ", mx::show(q)); });
    ops();
    if constexpr (is_flat(A) and K == N) { mul(&a.m, a.m, b.m); MC_CHECK(same(a.m, p) and same(b.m, b.d), "alias", w, " a=a*b = ", mx::show(mx::snap<T>(a.m)), " want ", mx::show(p)); a.content(va); }
    if constexpr (is_flat(B) and M == K) { mul(&b.m, a.m, b.m); MC_CHECK(same(b.m, p) and same(a.m, a.d), "alias", w, " b=a*b = ", mx::show(mx::snap<T>(b.m)), " want ", mx::show(p)); b.content(vb); }
    if constexpr (is_diag(B) and K == N and not is_perm(A)) { a.m *= b.m; MC_CHECK(same(a.m, p) and same(b.m, b.d), "op*=", w, " a*=b = ", mx::show(mx::snap<T>(a.m)), " want ", mx::show(p)); a.content(va); }
    if constexpr (A == B and is_flat(A) and M == K and K == N) { auto s = mx::mul(a.d, a.d); mul(&a.m, a.m, a.m); MC_CHECK(same(a.m, s), "alias", w, " a=a*a"); a.content(va); }
    mc::step(15);
}
template <int A, index_t M, index_t N> void vecs(size_t va) {
    if constexpr (M > 1 and N > 1) {
        std::string w = mc::str(kname(A), " v", va, " ", M, "x", N, " vec");
        for (size_t k = 0; k < N + 2; ++k) { // matrix * column vector: every unit vector and two dense ones
            Obj<A, T, M, N> a(va); Vec<T, N> x; Dense<T> X(N, 1);
            for (index_t i = 0; i < N; ++i) X.v[i] = x[i] = k < N ? T(size_t(i) == k) : T(k == N ? 2 * i + 3 : 5 - 4 * i);
            auto p = mx::mul(a.d, X);
            auto chk = [&](const auto& v, const char* how) { bool ok = true; for (index_t i = 0; i < M; ++i) ok = ok and el(v, i) == p.v[i]; MC_CHECK(ok, "matvec", w, k, " ", how); };
            { auto y = a.m * x; chk(y, "m*v"); } { auto y = mul(a.m, x); chk(y, "mul(m,v)"); }
            { Vec<T, M> y(T(9)); mul(&y, a.m, x); chk(y, "mul(&y,m,v)"); }
            each_dest<M, 1>([&](auto& d, auto&, const char* n) { mul(&d, a.m, x); MC_CHECK(same(d, p), "matvecinto", w, k, " into ", n); });
            if constexpr (is_flat(A)) each_dest<M, 1>([&](auto& d, auto& d0, const char* n) { auto q = d0; for (index_t i = 0; i < M; ++i) q.v[i] += p.v[i]; mul_acc(&d, a.m, x); MC_CHECK(same(d, q), "matvecaccinto", w, k, " accumulated into ", n); });
            if constexpr (is_flat(A)) { Vec<T, M> y(T(9)); mul_acc(&y, a.m, x); bool ok = true; for (index_t i = 0; i < M; ++i) ok = ok and y[i] == p.v[i] + 9; MC_CHECK(ok, "matvecacc", w, k, " mul_acc"); }
            if constexpr (M == N) { mul(&x, a.m, x); chk(x, "x=m*x"); }
            MC_CHECK(same(a.m, a.d), "operand", w, " modified matrix"); mc::step(6);
        }
        for (size_t k = 0; k < M + 2; ++k) {
            Obj<A, T, M, N> a(va); Vec<T, M> x; Dense<T> X(1, M);
            for (index_t i = 0; i < M; ++i) X.v[i] = x[i] = k < M ? T(size_t(i) == k) : T(k == M ? 2 * i + 3 : 5 - 4 * i);
            auto p = mx::mul(X, a.d);
            auto chk = [&](const auto& v, const char* how) { bool ok = true; for (index_t i = 0; i < N; ++i) ok = ok and el(v, i) == p.v[i]; MC_CHECK(ok, "vecmat", w, k, " ", how); };
            { auto y = x * a.m; chk(y, "v*m"); } { auto y = mul(x, a.m); chk(y, "mul(v,m)"); }
            { Vec<T, N> y(T(9)); mul(&y, x, a.m); chk(y, "mul(&y,v,m)"); }
            each_dest<1, N>([&](auto& d, auto&, const char* n) { mul(&d, x, a.m); MC_CHECK(same(d, p), "vecmatinto", w, k, " into ", n); });
            if constexpr (is_flat(A)) each_dest<1, N>([&](auto& d, auto& d0, const char* n) { auto q = d0; for (index_t i = 0; i < N; ++i) q.v[i] += p.v[i]; mul_acc(&d, x, a.m); MC_CHECK(same(d, q), "vecmataccinto", w, k, " accumulated into ", n); });
            if constexpr (is_flat(A)) { Vec<T, N> y(T(9)); mul_acc(&y, x, a.m); bool ok = true; for (index_t i = 0; i < N; ++i) ok = ok and y[i] == p.v[i] + 9; MC_CHECK(ok, "vecmatacc", w, k, " mul_acc"); }
            if constexpr (M == N) { mul(&x, x, a.m); chk(x, "x=x*m"); }
            mc::step(6);
        }
    }
}
/// overlapping windows of one memory block: destination shifted by every offset against the operands
template <index_t M, index_t K, index_t N> void windows() {
    const long R = 9;
    for (long oa = 0; oa <= R; ++oa) for (long od = 0; od <= R; ++od) for (int lay = 0; lay < 4; ++lay) {
        if (not mc::begin("window", IDX++)) continue;
        std::string w = mc::str("windows a@", oa, " dest@", od, " layouts ", lay, " ", M, "x", K, "*", K, "x", N);
        for (int side = 0; side < 2; ++side) {
            T mem[40]; for (long i = 0; i < 40; ++i) mem[i] = (i * 7 + 3) % 11 - 4;
            auto go = [&](auto& a, auto& d) {
                auto da = mx::snap<T>(a); T other[16]; for (int i = 0; i < 16; ++i) other[i] = (i * 5) % 7 - 2;
                T keep[40]; std::copy(mem, mem + 40, keep);
                Dense<T> p;
                if (side == 0) { SimpleMatrix<T, 0, 0> b((const T*) other, K, N); p = mx::mul(da, mx::snap<T>(b)); mul(&d, a, b); }
                else { SimpleMatrix<T, 0, 0> b((const T*) other, N, M); p = mx::mul(mx::snap<T>(b), da); mul(&d, b, a); }
                MC_CHECK(same(d, p), "window", w, " side ", side, " got ", mx::show(mx::snap<T>(d)), " want ", mx::show(p));
                const long lo = 12 + od, hi = lo + long(p.v.size());
                for (long i = 0; i < 40; ++i) if (i < lo or i >= hi) MC_CHECK(mem[i] == keep[i], "outside", w, " wrote outside the destination at ", i);
                mc::step();
            };
            const index_t dr = side == 0 ? M : N, dc = side == 0 ? N : K;
            if (lay == 0) { WrapperMatrix<T, 0, 0> a(mem + 12 + oa, M, K), d(mem + 12 + od, dr, dc); go(a, d); }
            if (lay == 1) { WrapperMatrix<T, 0, 0, COL_MAJOR> a(mem + 12 + oa, M, K); WrapperMatrix<T, 0, 0> d(mem + 12 + od, dr, dc); go(a, d); }
            if (lay == 2) { WrapperMatrix<T, 0, 0> a(mem + 12 + oa, M, K); WrapperMatrix<T, 0, 0, COL_MAJOR> d(mem + 12 + od, dr, dc); go(a, d); }
            if (lay == 3) { WrapperMatrix<T, M, K> a(mem + 12 + oa); WrapperMatrix<T, 0, 0, COL_MAJOR> d(mem + 12 + od, dr, dc); go(a, d); }
        }
        mc::trace(); mc::state();
    }
}
template <int A, int B, index_t M, index_t K, index_t N> void pair() {
    if constexpr (Obj<A, T, M, K>::valid() and Obj<B, T, K, N>::valid())
        for (size_t va = 0; va < Obj<A, T, M, K>::variants(); ++va) for (size_t vb = 0; vb < Obj<B, T, K, N>::variants(); ++vb)
            if (mc::begin("prod", IDX++)) { prod<A, B, M, K, N>(va, vb); mc::trace(); mc::state(); }
}
void mc_run() {
    IDX = 0;
    each_kind([&](auto kb) {
        constexpr int B = decltype(kb)::value;
        pair<KA, B, 2, 3, 3>(); pair<KA, B, 3, 3, 2>(); pair<KA, B, 3, 3, 3>();
#ifdef DEEP
        pair<KA, B, 2, 3, 4>();         pair<KA, B, 1, 1, 1>(); pair<KA, B, 1, 3, 1>(); pair<KA, B, 3, 1, 3>(); pair<KA, B, 4, 2, 3>(); pair<KA, B, 2, 2, 2>(); pair<KA, B, 4, 4, 4>();
#endif
    });
    auto v = [&](auto s) { typedef decltype(s) S; if constexpr (Obj<KA, T, S::m, S::n>::valid()) for (size_t va = 0; va < Obj<KA, T, S::m, S::n>::variants(); ++va) if (mc::begin("vec", IDX++)) { vecs<KA, S::m, S::n>(va); mc::trace(); mc::state(); } };
    v(Shape<2, 3>()); v(Shape<4, 2>()); v(Shape<3, 3>());
#ifdef DEEP
    v(Shape<2, 2>()); v(Shape<3, 2>()); v(Shape<4, 4>()); v(Shape<2, 4>()); v(Shape<4, 3>());
#endif
    if (KA == 7) { windows<2, 2, 2>(); windows<2, 3, 2>(); windows<3, 3, 3>(); windows<2, 3, 1>(); }
    mc::bound("pairs", "left kind x all 13 kinds x 3 shape triples (10 when thorough) x all contents"); mc::bound("vectors", "3 shapes (8 when thorough) x all unit vectors and two dense ones, both sides"); mc::bound("windows", "operand and destination windows at all offsets 0-9 of one block");
    mc::sample("perm 3x3 (all 6) * dyn-col 3x3: returned, into five kinds, accumulated, destination = operand");
}
