// C15: run-time dimension checks.   -DLO=.. -DHI=.. left operand kinds
#include "mc.h"
#include "kinds.h"
using namespace geom; using mx::Dense;
typedef long T; typedef Dense<T> D;
static uint64_t IDX;
enum K2 { kDR, kDC, kWD, kSH, kGD, kPD, kH2x, kHx3, kS23, kS32, kS22, kV2, kV3, NK };
const char* KN[] = {"dyn-row", "dyn-col", "wrap-dyn", "shared", "diag-dyn", "perm-dyn", "2x0", "0x3-col", "static 2x3", "static 3x2-col", "static 2x2", "Vec2", "Vec3"};
template <int K> struct Ty;
template <> struct Ty<kDR> { typedef SimpleMatrix<T, 0, 0> t; }; template <> struct Ty<kDC> { typedef SimpleMatrix<T, 0, 0, COL_MAJOR> t; };
template <> struct Ty<kWD> { typedef WrapperMatrix<T, 0, 0> t; }; template <> struct Ty<kSH> { typedef SimpleMatrix<T, 0, 0, ROW_MAJOR, STORAGE_SHARED> t; };
template <> struct Ty<kGD> { typedef DiagMatrix<T, 0, 0> t; }; template <> struct Ty<kPD> { typedef PermutationMatrix<0> t; };
template <> struct Ty<kH2x> { typedef SimpleMatrix<T, 2, 0> t; }; template <> struct Ty<kHx3> { typedef SimpleMatrix<T, 0, 3, COL_MAJOR> t; };
template <> struct Ty<kS23> { typedef SimpleMatrix<T, 2, 3> t; }; template <> struct Ty<kS32> { typedef SimpleMatrix<T, 3, 2, COL_MAJOR> t; }; template <> struct Ty<kS22> { typedef SimpleMatrix<T, 2, 2> t; };
template <> struct Ty<kV2> { typedef Vec<T, 2> t; }; template <> struct Ty<kV3> { typedef Vec<T, 3> t; };
constexpr bool isvec(int k) { return k == kV2 or k == kV3; }
template <int K> struct O {
    typedef typename Ty<K>::t type;
    T buf[9]; type m; D d;
    static type make(T* b, index_t r, index_t c) {
        if constexpr (K == kWD) return type(b, r, c); else if constexpr (K == kPD) return type(r);
        else if constexpr (K == kS23 or K == kS32 or K == kS22) return type(); else if constexpr (isvec(K)) return type((T) 0); else return type(r, c);
    }
    static bool valid(index_t r, index_t c) {
        switch (K) { case kPD: return r == c; case kH2x: return r == 2; case kHx3: return c == 3; case kS23: return r == 2 and c == 3; case kS32: return r == 3 and c == 2; case kS22: return r == 2 and c == 2;
            case kV2: return r == 2 and c == 1; case kV3: return r == 3 and c == 1; }
        return true;
    }
    O(index_t r, index_t c, int salt) : m(make(buf, r, c)), d(r, c) {
        if constexpr (K == kPD) { std::vector<index_t> p(r); for (index_t i = 0; i < r; ++i) p[i] = (i + 1) % r; m.setRowSources(p.data()); for (index_t i = 0; i < r; ++i) d(i, p[i]) = 1; }
        else if constexpr (K == kGD) { for (index_t i = 0; i < std::min(r, c); ++i) m.diagonal(i) = d(i, i) = i + 2 + salt; }
        else if constexpr (isvec(K)) { for (index_t i = 0; i < r; ++i) m[i] = d(i, 0) = 3 * i + 1 + salt; }
        else { d = mx::distinct<T>(r, c, salt); mx::fill(m, d); }
    }
    bool same() const { if constexpr (isvec(K)) { for (size_t i = 0; i < d.r; ++i) if (m[i] != d(i, 0)) return false; return true; } else return kn::same(m, d); }
};
enum R { OK, DIM, NONSQ, OTHER };
const char* RN[] = {"accepted", "DimensionMismatchException", "NonsquareMatrixException", "another exception"};
template <typename F> R attempt(F f) { try { f(); return OK; } catch (DimensionMismatchException&) { return DIM; } catch (NonsquareMatrixException&) { return NONSQ; } catch (...) { return OTHER; } }
template <typename F> void shapes(F f) { for (index_t r = 1; r <= 3; ++r) for (index_t c = 1; c <= 3; ++c) f(r, c); }
void expect(R got, R want, const std::string& what) { MC_CHECK(got == want, want == OK ? "rejected" : "accepted", what, " was ", RN[got], ", should be ", RN[want]); mc::outcome(RN[got]); mc::step(); }
template <typename Dt, typename A, typename B> concept HasMulInto = requires(Dt* d, const A& a, const B& b) { mul(d, a, b); };
template <typename Dt, typename A, typename B> concept HasMulAcc = requires(Dt* d, const A& a, const B& b) { mul_acc(d, a, b); };
template <typename Dt, typename A, typename B> concept HasAddInto = requires(Dt* d, const A& a, const B& b) { add(d, a, b); };
template <typename A, typename B> concept HasMul = requires(const A& a, const B& b) { mul(a, b); };
template <typename A, typename B> concept HasAdd = requires(const A& a, const B& b) { add(a, b); };
template <typename A, typename B> concept HasCopy = requires(A* a, const B& b) { mtxcopy(a, b); };
template <typename A, typename B> concept HasTx = requires(A* a, const B& b) { transpose(a, b); };
constexpr bool flatk(int k) { return k <= kSH or (k >= kH2x and k <= kS22); }
template <int A, int B> void pairs() {
    typedef typename Ty<A>::t TA; typedef typename Ty<B>::t TB;
    constexpr bool mats = not isvec(A) and not isvec(B);
    shapes([&](index_t ar, index_t ac) { if (not O<A>::valid(ar, ac)) return; shapes([&](index_t br, index_t bc) { if (not O<B>::valid(br, bc)) return;
        if (not mc::begin("pair", IDX++)) return;
        std::string w = mc::str(KN[A], " ", ar, "x", ac, " , ", KN[B], " ", br, "x", bc);
        O<A> a(ar, ac, 0); O<B> b(br, bc, 3);
        // vectors stand on the left as rows and on the right as columns
        const index_t mr = isvec(A) ? 1 : ar, mc_ = isvec(A) ? ar : ac; const bool mulok = mc_ == br, eq = ar == br and ac == bc;
        auto same = [&](const char* n) { MC_CHECK(a.same() and b.same(), "touched", w, " ", n, " modified an operand"); };
        if constexpr (HasMul<TA, TB> and (mats or isvec(A) != isvec(B))) { expect(attempt([&] { auto r = mul(a.m, b.m); (void) r; }), mulok ? OK : DIM, w + " mul"); expect(attempt([&] { auto r = a.m * b.m; (void) r; }), mulok ? OK : DIM, w + " operator*"); same("mul"); }
        if constexpr (mats) {
            if constexpr (HasAdd<TA, TB>) {
                expect(attempt([&] { auto r = add(a.m, b.m); (void) r; }), eq ? OK : DIM, w + " add"); expect(attempt([&] { auto r = sub(a.m, b.m); (void) r; }), eq ? OK : DIM, w + " sub");
                expect(attempt([&] { auto r = a.m + b.m; (void) r; }), eq ? OK : DIM, w + " operator+"); expect(attempt([&] { auto r = a.m - b.m; (void) r; }), eq ? OK : DIM, w + " operator-"); same("add/sub");
            }
            MC_CHECK((a.m == b.m) == (a.d == b.d) and (a.m != b.m) == not (a.d == b.d), "eq", w, " comparison across shapes");
            if constexpr (B == kGD and A != kPD) { // m *= d: needs a square d of m's width
                bool ok = ac == br and br == bc; R r = attempt([&] { a.m *= b.m; }); expect(r, ok ? OK : DIM, w + " operator*="); if (r != OK) same("operator*="); else if (ok) { MC_CHECK((kn::same(a.m, mx::mul(a.d, b.d))), "value", w, " operator*= value"); O<A> z(ar, ac, 0); a.d = mx::snap<T>(a.m); }
            }
        }
        O<A> x(ar, ac, 5);
        if constexpr (flatk(A) and HasCopy<TA, TB> and not isvec(B)) { R r = attempt([&] { mtxcopy(&x.m, b.m); }); expect(r, eq ? OK : DIM, w + " mtxcopy(&a, b)"); MC_CHECK((r == OK ? kn::same(x.m, b.d) : x.same()) and b.same(), "touched", w, " mtxcopy left ", mx::show(mx::snap<T>(x.m))); }
        if constexpr (flatk(A) and isvec(B) and HasCopy<TA, TB>) { bool ok = (ar == 1 and ac == br) or (ac == 1 and ar == br); O<A> y(ar, ac, 5); R r = attempt([&] { mtxcopy(&y.m, b.m); }); expect(r, ok ? OK : DIM, w + " mtxcopy(&a, vec)"); if (r != OK) MC_CHECK(y.same(), "touched", w, " failed mtxcopy changed the destination"); }
        if constexpr (isvec(A) and not isvec(B) and HasCopy<TA, TB>) { bool ok = (br == 1 and bc == ar) or (bc == 1 and br == ar); O<A> y(ar, ac, 5); R r = attempt([&] { mtxcopy(&y.m, b.m); }); expect(r, ok ? OK : DIM, w + " mtxcopy(&vec, b)"); if (r != OK) MC_CHECK(y.same(), "touched", w, " failed mtxcopy changed the destination"); }
        if constexpr (flatk(A) and mats and HasTx<TA, TB>) if constexpr (B != kWD) { O<A> y(ar, ac, 5); bool ok = ar == bc and ac == br; R r = attempt([&] { transpose(&y.m, b.m); }); expect(r, ok ? OK : DIM, w + " transpose(&a, b)"); MC_CHECK((r == OK ? not ok or kn::same(y.m, mx::tr(b.d)) : y.same()) and b.same(), "touched", w, " transpose left ", mx::show(mx::snap<T>(y.m))); }
        if constexpr (flatk(A) and mats) {
            if constexpr (HasAddInto<TA, TB, TB>) { O<A> y(ar, ac, 5); R r = attempt([&] { scale(&y.m, T(2), b.m); }); expect(r, eq ? OK : DIM, w + " scale(&a, 2, b)"); if (r != OK) MC_CHECK(y.same() and b.same(), "touched", w, " failed scale changed the destination"); }
        }
        mc::trace(); mc::state();
    }); });
}
template <int Dk, int A, int B> void triples() {
    typedef typename Ty<A>::t TA; typedef typename Ty<B>::t TB; typedef typename Ty<Dk>::t TD;
    constexpr bool mats = not isvec(A) and not isvec(B);
    if constexpr (HasMulInto<TD, TA, TB> and (mats or isvec(A) != isvec(B)))
    shapes([&](index_t dr, index_t dc) { if (not O<Dk>::valid(dr, dc)) return; shapes([&](index_t ar, index_t ac) { if (not O<A>::valid(ar, ac)) return; shapes([&](index_t br, index_t bc) { if (not O<B>::valid(br, bc)) return;
        if (not mc::begin("into", IDX++)) return;
        std::string w = mc::str("into ", KN[Dk], " ", dr, "x", dc, " : ", KN[A], " ", ar, "x", ac, " , ", KN[B], " ", br, "x", bc);
        O<A> a(ar, ac, 0); O<B> b(br, bc, 3); D X = isvec(A) ? mx::tr(a.d) : a.d;
        const bool mulok = X.c == size_t(br) and X.r == size_t(dr) and size_t(bc) == size_t(dc), eq = ar == br and ac == bc and dr == ar and dc == ac;
        { O<Dk> d(dr, dc, 5); R r = attempt([&] { mul(&d.m, a.m, b.m); }); expect(r, mulok ? OK : DIM, w + " mul"); MC_CHECK((r == OK ? not mulok or kn::same(d.m, mx::mul(X, b.d)) : d.same()) and a.same() and b.same(), "touched", w, " mul left ", mx::show(mx::snap<T>(d.m))); }
        if constexpr (flatk(A) and flatk(B)) if constexpr (HasMulAcc<TD, TA, TB>) { O<Dk> d(dr, dc, 5); R r = attempt([&] { mul_acc(&d.m, a.m, b.m); }); expect(r, mulok ? OK : DIM, w + " mul_acc"); MC_CHECK((r == OK or d.same()) and a.same() and b.same(), "touched", w, " failed mul_acc changed something"); }
        if constexpr (mats) if constexpr (HasAddInto<TD, TA, TB>) {
            { O<Dk> d(dr, dc, 5); R r = attempt([&] { add(&d.m, a.m, b.m); }); expect(r, eq ? OK : DIM, w + " add"); MC_CHECK((r == OK or d.same()) and a.same() and b.same(), "touched", w, " failed add changed something"); }
            { O<Dk> d(dr, dc, 5); R r = attempt([&] { sub(&d.m, a.m, b.m); }); expect(r, eq ? OK : DIM, w + " sub"); MC_CHECK((r == OK or d.same()) and a.same() and b.same(), "touched", w, " failed sub changed something"); }
        }
        mc::trace();
    }); }); });
}
template <typename Md, typename Mx> concept HasInv = requires(Md* d, const Mx& s) { inv(d, s); };
template <int A> void invs() {
    // double matrices: source A-shaped, destination every dynamic shape
    shapes([&](index_t ar, index_t ac) { if (A == kPD and ar != ac) return; shapes([&](index_t dr, index_t dc) {
        if (not mc::begin("inv", IDX++)) return;
        std::string w = mc::str("inv ", KN[A], " ", ar, "x", ac, " into ", dr, "x", dc);
        auto go = [&](auto& s, auto& d) {
            auto s0 = mx::snap<double>(s); for (auto i = d.begin(); i != d.end(); ++i) *i = 7; auto d0 = mx::snap<double>(d);
            bool sq = ar == ac, eq = ar == dr and ac == dc; R r = attempt([&] { inv(&d, s); });
            bool good = sq and eq ? r == OK : not sq and eq ? r == NONSQ : sq ? r == DIM : (r == DIM or r == NONSQ);
            MC_CHECK(good, "inv", w, " was ", RN[r]); if (r != OK) MC_CHECK(mx::snap<double>(d) == d0, "touched", w, " failed inv changed the destination"); MC_CHECK(mx::snap<double>(s) == s0, "touched", w, " inv changed its source");
            if (dr == 1 and dc == 1) { R q = attempt([&] { bool ok; auto v = inv(s, &ok); (void) v; }); MC_CHECK(q == (sq ? OK : NONSQ), "inv", w, " by value was ", RN[q]); }
            mc::outcome(RN[r]); mc::step();
        };
        // every kind of destination with one or two run-time dimensions, and static ones
        auto into = [&](auto& s) {
            { SimpleMatrix<double, 0, 0> d(dr, dc); go(s, d); } { SimpleMatrix<double, 0, 0, COL_MAJOR> d(dr, dc); go(s, d); }
            auto half = [&](auto* tag, bool fits) { typedef std::remove_pointer_t<decltype(tag)> Md; if constexpr (HasInv<Md, std::remove_reference_t<decltype(s)>>) if (fits) { Md d(dr, dc); go(s, d); } };
            half((SimpleMatrix<double, 2, 0>*) nullptr, dr == 2); half((SimpleMatrix<double, 0, 3, COL_MAJOR>*) nullptr, dc == 3); half((SimpleMatrix<double, 0, 2>*) nullptr, dc == 2); half((SimpleMatrix<double, 3, 0, COL_MAJOR>*) nullptr, dr == 3); half((SimpleMatrix<double, 2, 2>*) nullptr, dr == 2 and dc == 2); half((SimpleMatrix<double, 3, 3, COL_MAJOR>*) nullptr, dr == 3 and dc == 3);
        };
        if constexpr (A == kDR) { SimpleMatrix<double, 0, 0> s(ar, ac); into(s); if (ar == 2) { SimpleMatrix<double, 2, 0> h(ar, ac); into(h); } if (ac == 3) { SimpleMatrix<double, 0, 3> h(ar, ac); into(h); } if (ar == 2 and ac == 2) { SimpleMatrix<double, 2, 2> h; into(h); } }
        if constexpr (A == kDC) { SimpleMatrix<double, 0, 0, COL_MAJOR> s(ar, ac); into(s); if (ar == 3) { SimpleMatrix<double, 3, 0, COL_MAJOR> h(ar, ac); into(h); } if (ac == 2) { SimpleMatrix<double, 0, 2, COL_MAJOR> h(ar, ac); into(h); } if (ar == 3 and ac == 3) { SimpleMatrix<double, 3, 3, COL_MAJOR> h; into(h); } }
        if constexpr (A == kGD) { DiagMatrix<double, 0, 0> s(ar, ac); into(s); if (ar == 2) { DiagMatrix<double, 2, 0> h(ar, ac); into(h); } if (ac == 3) { DiagMatrix<double, 0, 3> h(ar, ac); into(h); } }
        if constexpr (A == kPD) { PermutationMatrix<0> s(ar); into(s); }
        mc::trace();
    }); });
}
template <int A, int B> void both() { if constexpr (not (isvec(A) and isvec(B))) { pairs<A, B>(); triples<kDR, A, B>(); triples<kDC, A, B>(); triples<kH2x, A, B>(); triples<kS23, A, B>(); } }
template <int A, int... B> void row(std::integer_sequence<int, B...>) { (both<A, B>(), ...); }
template <int... A> void rows(std::integer_sequence<int, A...>) { ([&] { if constexpr (A >= LO and A <= HI) row<A>(std::make_integer_sequence<int, NK>()); }(), ...); }
void mc_run() {
    IDX = 0;
    rows(std::make_integer_sequence<int, NK>());
    if (LO == 0) { invs<kDR>(); invs<kDC>(); invs<kGD>(); invs<kPD>(); }
    mc::bound("shapes", "every operand and destination shape 1x1..3x3 of 6 dynamic, 2 half-static, 3 static matrix kinds and 2 vectors");
    mc::bound("operations", "mul, mul_acc, add, sub, scale, transpose, mtxcopy, inv, ==, *=, and operators");
    mc::sample("mul into static 2x3 of 2x0 2x2 and 0x3-col 1x3: DimensionMismatchException, destination untouched");
}
