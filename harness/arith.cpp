// C08: elementwise arithmetic, scaling, comparison and transposition of every pair of kinds.   -DKA=left kind
#include "mc.h"
#include "kinds.h"
using namespace kn;
typedef long T;
static uint64_t IDX;
template <int K> struct KI { static constexpr int v = K; };
/// run f(dest, name) with a fresh, garbage-filled flat destination of shape M x N of several kinds
template <index_t M, index_t N, typename F> void each_dest(F f) {
    { Obj<SR, T, M, N> d(1); f(d.m, "static-row"); }
    { Obj<SC, T, M, N> d(1); f(d.m, "static-col"); }
    { Obj<DR, T, M, N> d(1); f(d.m, "dyn-row"); }
    { Obj<HC, T, M, N> d(1); f(d.m, "0xN-col"); }
    { Obj<WC, T, M, N> d(1); f(d.m, "wrap-col"); bool ok = true; for (long k = 0; k < M * N; ++k) ok = ok and d.buf[k] == T(d.m(k % M, k / M)); MC_CHECK(ok, "wrapdest", "wrapped destination memory differs from the view"); }
}
template <typename A, typename B, typename Da, typename Db> void unchanged(const std::string& w, const A& a, const Da& da, const B& b, const Db& db) {
    MC_CHECK(same(a, da) and same(b, db), "operand", w, " modified an operand: ", mx::show(mx::snap<T>(a)), " / ", mx::show(mx::snap<T>(b)));
}
template <int A, int B, index_t M, index_t N> void addsub(size_t va, size_t vb) {
    Obj<A, T, M, N> a(va); Obj<B, T, M, N> b(vb);
    std::string w = mc::str(kname(A), " v", va, " , ", kname(B), " v", vb, " ", M, "x", N);
    Dense<T> sum(M, N), dif(M, N);
    for (size_t i = 0; i < sum.v.size(); ++i) { sum.v[i] = a.d.v[i] + b.d.v[i]; dif.v[i] = a.d.v[i] - b.d.v[i]; }
    { auto r = add(a.m, b.m); MC_CHECK(same(r, sum), "add", w, " add ", mx::show(mx::snap<T>(r)), " want ", mx::show(sum)); }
    { auto r = sub(a.m, b.m); MC_CHECK(same(r, dif), "sub", w, " sub ", mx::show(mx::snap<T>(r)), " want ", mx::show(dif)); }
    { auto r = a.m + b.m; MC_CHECK(same(r, sum), "op+", w, " + ", mx::show(mx::snap<T>(r))); }
    { auto r = a.m - b.m; MC_CHECK(same(r, dif), "op-", w, " - ", mx::show(mx::snap<T>(r))); }
    unchanged(w, a.m, a.d, b.m, b.d);
    each_dest<M, N>([&](auto& d, const char* n) { add(&d, a.m, b.m); MC_CHECK(same(d, sum), "addinto", w, " add into ", n, " ", mx::show(mx::snap<T>(d)), " want ", mx::show(sum)); });
    each_dest<M, N>([&](auto& d, const char* n) { sub(&d, a.m, b.m); MC_CHECK(same(d, dif), "subinto", w, " sub into ", n, " ", mx::show(mx::snap<T>(d)), " want ", mx::show(dif)); });
    if constexpr (is_diag(A) and is_diag(B)) {
        DiagMatrix<T, M, N> g; DiagMatrix<T, 0, 0> h(M, N);
        add(&g, a.m, b.m); add(&h, a.m, b.m); MC_CHECK(same(g, sum) and same(h, sum), "adddiag", w, " add into diag");
        sub(&g, a.m, b.m); sub(&h, a.m, b.m); MC_CHECK(same(g, dif) and same(h, dif), "subdiag", w, " sub into diag");
    }
    unchanged(w, a.m, a.d, b.m, b.d);
    // destination is an operand
    constexpr bool wa = is_flat(A) or (is_diag(A) and is_diag(B)), wb = is_flat(B) or (is_diag(A) and is_diag(B));
    if constexpr (wa) { add(&a.m, a.m, b.m); MC_CHECK(same(a.m, sum) and same(b.m, b.d), "addalias", w, " a=a+b ", mx::show(mx::snap<T>(a.m))); a.content(va);
                        sub(&a.m, a.m, b.m); MC_CHECK(same(a.m, dif) and same(b.m, b.d), "subalias", w, " a=a-b ", mx::show(mx::snap<T>(a.m))); a.content(va); }
    if constexpr (wb) { add(&b.m, a.m, b.m); MC_CHECK(same(b.m, sum) and same(a.m, a.d), "addalias", w, " b=a+b ", mx::show(mx::snap<T>(b.m))); b.content(vb);
                        sub(&b.m, a.m, b.m); MC_CHECK(same(b.m, dif) and same(a.m, a.d), "subalias", w, " b=a-b ", mx::show(mx::snap<T>(b.m))); b.content(vb); }
    if constexpr (wa and A == B) {
        Dense<T> two = a.d, z(M, N); for (auto& x : two.v) x *= 2;
        add(&a.m, a.m, a.m); MC_CHECK(same(a.m, two), "addalias", w, " a=a+a"); a.content(va); sub(&a.m, a.m, a.m); MC_CHECK(same(a.m, z), "subalias", w, " a=a-a"); a.content(va);
    }
    // comparison: equal exactly when dense contents are equal, in both directions
    bool eq = a.d == b.d;
    MC_CHECK((a.m == b.m) == eq and (b.m == a.m) == eq and (a.m != b.m) == not eq, "eq", w, " == is ", (a.m == b.m), " != is ", (a.m != b.m), " want ", eq);
    mc::step(16);
}
/// every single-element change is seen by ==
template <int A, int B, index_t M, index_t N> void eqprobe(size_t va) {
    Obj<A, T, M, N> a(va); std::string w = mc::str(kname(A), " v", va, " vs ", kname(B), " ", M, "x", N);
    if constexpr (is_flat(B)) {
        Obj<B, T, M, N> b(0);
        for (index_t i = 0; i < M; ++i) for (index_t j = 0; j < N; ++j) b.m.set(i, j, a.d(i, j));
        MC_CHECK(a.m == b.m and b.m == a.m and not (a.m != b.m), "eqcopy", w, " equal contents compare unequal");
        for (index_t i = 0; i < M; ++i) for (index_t j = 0; j < N; ++j) {
            b.m.set(i, j, a.d(i, j) + 1); MC_CHECK(not (a.m == b.m) and not (b.m == a.m) and a.m != b.m, "eqdiff", w, " difference at ", i, ",", j, " not seen");
            b.m.set(i, j, a.d(i, j)); mc::step();
        }
    }
}
template <int A, index_t M, index_t N> void unary(size_t va) {
    Obj<A, T, M, N> a(va); std::string w = mc::str(kname(A), " v", va, " ", M, "x", N);
    auto t = mx::tr(a.d);
    if constexpr (not is_wrap(A)) { auto r = transpose(a.m); MC_CHECK(same(r, t), "txpose", w, " transpose ", mx::show(mx::snap<T>(r)), " want ", mx::show(t)); }
    if constexpr (not is_wrap(A)) each_dest<N, M>([&](auto& d, const char* n) { transpose(&d, a.m); MC_CHECK(same(d, t), "txposeinto", w, " transpose into ", n, " ", mx::show(mx::snap<T>(d))); });
    if constexpr (is_diag(A)) { auto g = transpose(a.m); g.set_zero(); transpose(&g, a.m); MC_CHECK(same(g, t), "txposediag", w, " transpose into diag"); }
    if constexpr (is_perm(A)) { PermutationMatrix<N> g; PermutationMatrix<0> h(N); transpose(&g, a.m); transpose(&h, a.m); MC_CHECK(same(g, t) and same(h, t), "txposeperm", w, " transpose into perm"); }
    MC_CHECK(same(a.m, a.d), "operand", w, " transpose modified its operand");
    if constexpr (M == N and not is_wrap(A)) { transpose(&a.m, a.m); MC_CHECK(same(a.m, t), "txposeself", w, " in-place transpose ", mx::show(mx::snap<T>(a.m)), " want ", mx::show(t)); a.content(va); }
    if constexpr (is_flat(A)) { // transpose into another view of the same memory
        WrapperMatrix<T, N, M> v(&*a.m.data_begin()); if constexpr (not is_wrap(A)) { transpose(&v, a.m); MC_CHECK(same(v, t), "txposeview", w, " transpose into an overlapping view ", mx::show(mx::snap<T>(v)), " want ", mx::show(t)); a.content(va); }
        mtxcopy(&a.m, a.m); MC_CHECK(same(a.m, a.d), "copyself", w, " self copy");
    }
    static const T ks[] = {0, 1, -1, 3};
    for (T k : ks) {
        Dense<T> s = a.d; for (auto& x : s.v) x *= k;
        if constexpr (not is_wrap(A) and not is_perm(A)) {
            auto r = scale(k, a.m); MC_CHECK(same(r, s), "scale", w, " scale by ", k); auto r2 = k * a.m; auto r3 = a.m * k; MC_CHECK(same(r2, s) and same(r3, s), "scaleop", w, " k*m, m*k, k=", k);
            auto r4 = (int) k * a.m; MC_CHECK(same(r4, s), "scaleop", w, " int k*m, k=", k);
            if constexpr (A == SH) { MC_CHECK(same(a.m, a.d), "operand", w, " scaling modified its operand"); }
        }
        each_dest<M, N>([&](auto& d, const char* n) { scale(&d, k, a.m); MC_CHECK(same(d, s), "scaleinto", w, " scale by ", k, " into ", n, " ", mx::show(mx::snap<T>(d))); });
        if constexpr (is_diag(A)) { DiagMatrix<T, M, N> g; DiagMatrix<T, 0, 0> h(M, N); scale(&g, k, a.m); scale(&h, k, a.m); MC_CHECK(same(g, s) and same(h, s), "scalediag", w, " scale into diag"); }
        MC_CHECK(same(a.m, a.d), "operand", w, " scaling modified its operand");
        if constexpr (not is_perm(A)) { scale(&a.m, k, a.m); MC_CHECK(same(a.m, s), "scaleself", w, " in-place scale by ", k, " ", mx::show(mx::snap<T>(a.m))); a.content(va); }
        mc::step(8);
    }
}
#ifdef ALLPAIRS
#define PAIRS true
#else
#define PAIRS ((M == 2 and N == 3) or (M == 3 and N == 2) or (M == 3 and N == 3))
#endif
template <int A, index_t M, index_t N> void shape() {
    if constexpr (Obj<A, T, M, N>::valid()) {
        for (size_t va = 0; va < Obj<A, T, M, N>::variants(); ++va) { if (mc::begin("unary", IDX)) { unary<A, M, N>(va); mc::trace(); mc::state(); } ++IDX; }
        if constexpr (PAIRS) each_kind([&](auto kb) {
            constexpr int B = decltype(kb)::value;
            if constexpr (Obj<B, T, M, N>::valid()) for (size_t va = 0; va < Obj<A, T, M, N>::variants(); ++va) {
                if (mc::begin("eq", IDX)) { eqprobe<A, B, M, N>(va); mc::trace(); } ++IDX;
                for (size_t vb = 0; vb < Obj<B, T, M, N>::variants(); ++vb) { if (mc::begin("pair", IDX)) { addsub<A, B, M, N>(va, vb); mc::trace(); mc::state(); } ++IDX; }
            }
        });
    }
}
void mc_run() {
    IDX = 0;
    shape<KA, 1, 1>(); shape<KA, 2, 2>(); shape<KA, 2, 3>(); shape<KA, 3, 2>(); shape<KA, 3, 3>(); shape<KA, 1, 3>(); shape<KA, 4, 1>();
    mc::bound("shapes", "1x1 2x2 2x3 3x2 3x3 1x3 4x1"); mc::bound("pairs", "left kind x all 13 kinds x all contents (all n! permutations)");
    mc::sample("static-col 2x3 + diag 2x3: returned value, five destination kinds, destination = either operand, ==, operands unchanged");
}
