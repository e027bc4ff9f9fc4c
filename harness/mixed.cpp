// C08 / C09: sums, comparisons and products of matrices and vectors with different element types.
//   -DKA=left kind -DMCP=8 (elementwise) or 9 (products).  Elements of `double` matrices are odd multiples of 1/2 (exact),
//   so that a result kept in the narrower type shows.
#include "mc.h"
#include "kinds.h"
using namespace kn;
static uint64_t IDX;
typedef double R;
template <typename T> Dense<R> wide(const Dense<T>& a) { Dense<R> d(a.r, a.c); for (size_t i = 0; i < a.v.size(); ++i) d.v[i] = R(a.v[i]); return d; }
template <typename T> const char* tn() { return std::is_same_v<T, long> ? "long" : std::is_same_v<T, int> ? "int" : std::is_same_v<T, float> ? "float" : "double"; }
template <index_t M, index_t N, typename F> void each_dest(F f) {
    { Obj<SR, R, M, N> d(1); f(d.m, "static-row"); }
    { Obj<HC, R, M, N> d(1); f(d.m, "0xN-col"); }
    { Obj<WD, R, M, N> d(1); f(d.m, "wrap-dyn"); }
}
template <int A, int B, typename TA, typename TB, index_t M, index_t N> void sums(size_t va, size_t vb) {
    Obj<A, TA, M, N> a(va); Obj<B, TB, M, N> b(vb);
    std::string w = mc::str(kname(A), "<", tn<TA>(), "> v", va, " , ", kname(B), "<", tn<TB>(), "> v", vb, " ", M, "x", N);
    auto da = wide(a.d), db = wide(b.d); Dense<R> sum(M, N), dif(M, N);
    for (size_t i = 0; i < sum.v.size(); ++i) { sum.v[i] = da.v[i] + db.v[i]; dif.v[i] = da.v[i] - db.v[i]; }
    { auto r = a.m + b.m; MC_CHECK(same<R>(r, sum), "op+", w, " + = ", mx::show(mx::snap<R>(r)), " want ", mx::show(sum)); }
    { auto r = a.m - b.m; MC_CHECK(same<R>(r, dif), "op-", w, " - = ", mx::show(mx::snap<R>(r)), " want ", mx::show(dif)); }
    { auto r = add(a.m, b.m); MC_CHECK(same<R>(r, sum), "add", w, " add"); auto q = sub(a.m, b.m); MC_CHECK(same<R>(q, dif), "sub", w, " sub"); }
    each_dest<M, N>([&](auto& d, const char* n) { add(&d, a.m, b.m); MC_CHECK(same<R>(d, sum), "addinto", w, " add into ", n, " = ", mx::show(mx::snap<R>(d)));
                                                  sub(&d, a.m, b.m); MC_CHECK(same<R>(d, dif), "subinto", w, " sub into ", n, " = ", mx::show(mx::snap<R>(d))); });
    MC_CHECK((a.m == b.m) == (da == db) and (b.m == a.m) == (da == db) and (a.m != b.m) == not (da == db), "eq", w, " == is ", (a.m == b.m));
    MC_CHECK(same<TA>(a.m, a.d) and same<TB>(b.m, b.d), "operand", w, " modified an operand");
    mc::step(10);
}
template <int A, int B, typename TA, typename TB, index_t M, index_t K, index_t N> void prods(size_t va, size_t vb) {
    Obj<A, TA, M, K> a(va); Obj<B, TB, K, N> b(vb);
    std::string w = mc::str(kname(A), "<", tn<TA>(), "> v", va, " ", M, "x", K, " * ", kname(B), "<", tn<TB>(), "> v", vb, " ", K, "x", N);
    auto p = mx::mul(wide(a.d), wide(b.d));
    { auto r = a.m * b.m; MC_CHECK(same<R>(r, p), "op*", w, " = ", mx::show(mx::snap<R>(r)), " want ", mx::show(p)); }
    { auto r = mul(a.m, b.m); MC_CHECK(same<R>(r, p), "mul", w, " = ", mx::show(mx::snap<R>(r)), " want ", mx::show(p)); }
    each_dest<M, N>([&](auto& d, const char* n) { mul(&d, a.m, b.m); MC_CHECK(same<R>(d, p), "mulinto", w, " into ", n, " = ", mx::show(mx::snap<R>(d)), " want ", mx::show(p)); });
    MC_CHECK(same<TA>(a.m, a.d) and same<TB>(b.m, b.d), "operand", w, " modified an operand");
    mc::step(5);
}
template <typename V> R el(const V& v, index_t i) { if constexpr (detail::IsMatrix<V>::val) return R(*(v.begin() + i)); else return R(v[i]); }
template <int A, typename TA, typename TV, index_t M, index_t N> void vecs(size_t va) {
    std::string w = mc::str(kname(A), "<", tn<TA>(), "> v", va, " ", M, "x", N, " with Vec<", tn<TV>(), ">");
    Obj<A, TA, M, N> a(va);
    for (int k = 0; k < 2; ++k) {
        Vec<TV, N> x; Dense<R> X(N, 1); for (index_t i = 0; i < N; ++i) { x[i] = TV((k ? 5 - 4 * i : 2 * i + 3) * unit<TV>); X.v[i] = R(x[i]); }
        Vec<TV, M> z; Dense<R> Z(1, M); for (index_t i = 0; i < M; ++i) { z[i] = TV((k ? 7 - 4 * i : 2 * i + 1) * unit<TV>); Z.v[i] = R(z[i]); }
        auto p = mx::mul(wide(a.d), X), q = mx::mul(Z, wide(a.d));
        auto chk = [&](const auto& v, const Dense<R>& e, const char* how) { bool ok = true; for (size_t i = 0; i < e.v.size(); ++i) ok = ok and el(v, i) == e.v[i]; MC_CHECK(ok, "matvec", w, " ", k, " ", how, " want ", mx::show(e)); };
        { auto y = a.m * x; chk(y, p, "m*v"); } { auto y = mul(a.m, x); chk(y, p, "mul(m,v)"); }
        { auto y = z * a.m; chk(y, q, "v*m"); } { auto y = mul(z, a.m); chk(y, q, "mul(v,m)"); }
        if constexpr (not is_perm(A)) { // (a permutation only rearranges a vector, keeping its type)
            { Vec<R, M> y(R(9)); mul(&y, a.m, x); chk(y, p, "mul(&y,m,v)"); } { Vec<R, N> y(R(9)); mul(&y, z, a.m); chk(y, q, "mul(&y,v,m)"); }
            if constexpr (is_flat(A)) {
                auto p9 = p, q9 = q; for (auto& e : p9.v) e += 9.5; for (auto& e : q9.v) e += 9.5;
                { Vec<R, M> y(R(9.5)); mul_acc(&y, a.m, x); chk(y, p9, "mul_acc(&y,m,v)"); } { Vec<R, N> y(R(9.5)); mul_acc(&y, z, a.m); chk(y, q9, "mul_acc(&y,v,m)"); }
            }
        }
        each_dest<M, 1>([&](auto& d, const char* n) { mul(&d, a.m, x); MC_CHECK(same<R>(d, p), "matvecinto", w, " ", k, " m*v into ", n); });
        each_dest<1, N>([&](auto& d, const char* n) { mul(&d, z, a.m); MC_CHECK(same<R>(d, q), "vecmatinto", w, " ", k, " v*m into ", n); });
        mc::step(10);
    }
}
template <int A, typename TA, index_t M, index_t N> void scaled(size_t va) {
    Obj<A, TA, M, N> a(va); std::string w = mc::str(kname(A), "<", tn<TA>(), "> v", va, " ", M, "x", N);
    for (R k : {0.0, 1.0, -0.5, 2.5}) {
        auto s = wide(a.d); for (auto& x : s.v) x *= k;
        each_dest<M, N>([&](auto& d, const char* n) { scale(&d, k, a.m); MC_CHECK(same<R>(d, s), "scaleinto", w, " scale by ", k, " into ", n, " = ", mx::show(mx::snap<R>(d)), " want ", mx::show(s)); });
        if constexpr (is_flat(A) and std::is_same_v<TA, R>) { auto* r = &(a.m *= k); MC_CHECK(same<R>(a.m, s) and (void*) r == (void*) &a.m, "op*=", w, " *= ", k, " = ", mx::show(mx::snap<R>(a.m)), " want ", mx::show(s)); a.content(va); }
        mc::step(3);
    }
    if constexpr (is_flat(A)) for (int k : {0, 1, -1, 3}) { auto s = a.d; for (auto& x : s.v) x *= k; a.m *= k; MC_CHECK(same<TA>(a.m, s), "op*=", w, " *= int ", k, " = ", mx::show(mx::snap<TA>(a.m))); a.content(va); mc::step(); }
}
template <int A, int B, typename TA, typename TB> void types() {
    auto each = [&](auto sa, auto sb, auto f) { typedef decltype(sa) S; typedef decltype(sb) Q;
        if constexpr (Obj<A, TA, S::m, S::n>::valid() and Obj<B, TB, Q::m, Q::n>::valid())
            for (size_t va = 0; va < Obj<A, TA, S::m, S::n>::variants(); ++va) for (size_t vb = 0; vb < Obj<B, TB, Q::m, Q::n>::variants(); ++vb)
                if (mc::begin("pair", IDX++)) { f(va, vb); mc::trace(); mc::state(); } };
    if constexpr (MCP == 8) {
        each(Shape<2, 3>(), Shape<2, 3>(), [&](size_t x, size_t y) { if constexpr (not is_perm(A) and not is_perm(B)) sums<A, B, TA, TB, 2, 3>(x, y); });
        each(Shape<3, 3>(), Shape<3, 3>(), [&](size_t x, size_t y) { sums<A, B, TA, TB, 3, 3>(x, y); });
    } else {
        each(Shape<2, 3>(), Shape<3, 2>(), [&](size_t x, size_t y) { if constexpr (not is_perm(A) and not is_perm(B)) prods<A, B, TA, TB, 2, 3, 2>(x, y); });
        each(Shape<3, 3>(), Shape<3, 3>(), [&](size_t x, size_t y) { prods<A, B, TA, TB, 3, 3, 3>(x, y); });
    }
}
void mc_run() {
    IDX = 0; unit<double> = 0.5;
    each_kind([&](auto kb) { constexpr int B = decltype(kb)::value;
        if constexpr (not (is_perm(KA) and is_perm(B))) { types<KA, B, long, double>(); types<KA, B, double, long>();
#ifdef DEEP
            types<KA, B, double, double>(); types<KA, B, int, double>(); types<KA, B, float, long>();
#endif
        } });
    auto one = [&](auto s, auto t) { typedef decltype(s) S; typedef decltype(t) TA;
        if constexpr (Obj<KA, TA, S::m, S::n>::valid()) for (size_t va = 0; va < Obj<KA, TA, S::m, S::n>::variants(); ++va) if (mc::begin("one", IDX++)) {
            if constexpr (MCP == 8) scaled<KA, TA, S::m, S::n>(va);
            else { vecs<KA, TA, double, S::m, S::n>(va); vecs<KA, TA, long, S::m, S::n>(va); }
            mc::trace(); mc::state(); } };
    one(Shape<2, 3>(), long()); one(Shape<2, 3>(), double()); one(Shape<3, 2>(), long()); one(Shape<3, 3>(), double()); one(Shape<3, 3>(), long());
    mc::bound("element types", "long with double and double with long"); mc::bound("kinds", "left kind x all 13 kinds");
    mc::sample("diag<long> 3x3 * dyn-col<double> 3x3: returned product, three destinations, operands unchanged");
}
