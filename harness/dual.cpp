// C31: dual numbers against numerical differentiation of the value function.
// Every expression is carried twice: as Duals through the real code, and as its long double values at five
// neighbouring parameters; the derivative is the five point stencil of the latter (no derivative rule is modelled).
#include "mc.h"
#include "lat.h"
#include <complex>
#include <geomc/function/Dual.h>
using namespace geom;
typedef long double R;
#ifndef ET
#define ET double
#endif
typedef ET T;
typedef Dual<T> D;
static uint64_t IDX;
static const R H = 1e-3L, TOL = sizeof(T) == 8 ? 1e-8L : 2e-4L;
struct Nd { D d; std::array<R, 5> v; std::string s; bool kink = false; R amp = 1; };
typedef std::optional<Nd> Opt;
static R deriv(const Nd& n) { return (n.v[0] - 8 * n.v[1] + 8 * n.v[3] - n.v[4]) / (12 * H); }
static R deriv3(const Nd& n) { return (n.v[3] - n.v[1]) / (2 * H); }
template <typename F> static bool all(const Nd& a, F f) { for (R x : a.v) if (not f(x)) return false; return true; }
template <typename F, typename G> static Opt un(const std::string& nm, const Nd& a, F model, G real, bool ok = true) {
    if (not ok) return {}; Nd n; n.s = nm + "(" + a.s + ")"; for (int i = 0; i < 5; ++i) { n.v[i] = model(a.v[i]); if (not(std::abs(n.v[i]) < 100)) return {}; } n.d = real(a.d); n.amp = a.amp; return n;
}
template <typename F, typename G> static Opt bin(const std::string& nm, const Nd& a, const Nd& b, F model, G real, bool ok = true) {
    if (not ok) return {}; Nd n; n.s = nm + "(" + a.s + ", " + b.s + ")"; for (int i = 0; i < 5; ++i) { n.v[i] = model(a.v[i], b.v[i]); if (not(std::abs(n.v[i]) < 100)) return {}; } n.d = real(a.d, b.d); n.amp = std::max(a.amp, b.amp); return n;
}
static bool judge(Opt& o, const char* op) {   // false: drop from further composition
    if (not o) return false; mc::step(); Nd& n = *o; R e = deriv(n), e3 = deriv3(n), err = std::abs(e - e3) + 1e-12L; if (std::abs(e) > 50 or err > 1e-3L) return false;
    R sc = (1 + std::abs(n.v[2]) + std::abs(e)) * n.amp * 100;
    if (not(std::abs(n.d.x - n.v[2]) <= TOL * sc)) { mc::fail(mc::str("value of ", op), mc::str(n.s, " has value ", n.d.x, " expected ", n.v[2])); return false; }
    if (not(std::abs(n.d.dx - e) <= TOL * sc + 20 * err)) { mc::fail(mc::str("derivative of ", op), mc::str(n.s, " has derivative ", n.d.dx, " expected ", e)); return false; }
    n.amp = std::max<R>(n.amp, std::abs(e) / 10); return true;
}
static const char* UN[] = {"neg", "sin", "cos", "tan", "asin", "acos", "atan", "exp", "log", "sqrt", "abs", "x^2", "x^3", "x^-1", "x^0.5", "2^x", "x+c", "c+x", "x-c", "c-x", "x*c", "c*x", "x/c", "c/x", "x+=c", "x-=c", "x*=c", "x/=c", "x+=x", "x-=x", "x*=x", "x/=x", "++x", "x--", "floor", "ceil", "x*int", "int/x", "x^0"};
enum { NU = 39 };
static Opt unary(int k, const Nd& a) {
    auto pos = [&] { return all(a, [](R x) { return x > 0.1L; }); }; auto away = [&] { return all(a, [](R x) { return std::abs(x) > 0.1L; }); }; auto unit = [&] { return all(a, [](R x) { return std::abs(x) < 0.9L; }); }; const T c = (T)2.5; const char* n = UN[k];
    switch (k) {
        case 0: return un(n, a, [](R x) { return -x; }, [](D d) { return -d; });
        case 1: return un(n, a, [](R x) { return std::sin(x); }, [](D d) { return std::sin(d); });
        case 2: return un(n, a, [](R x) { return std::cos(x); }, [](D d) { return std::cos(d); });
        case 3: return un(n, a, [](R x) { return std::tan(x); }, [](D d) { return std::tan(d); }, all(a, [](R x) { return std::abs(std::cos(x)) > 0.2L; }));
        case 4: return un(n, a, [](R x) { return std::asin(x); }, [](D d) { return std::asin(d); }, unit());
        case 5: return un(n, a, [](R x) { return std::acos(x); }, [](D d) { return std::acos(d); }, unit());
        case 6: return un(n, a, [](R x) { return std::atan(x); }, [](D d) { return std::atan(d); });
        case 7: return un(n, a, [](R x) { return std::exp(x); }, [](D d) { return std::exp(d); });
        case 8: return un(n, a, [](R x) { return std::log(x); }, [](D d) { return std::log(d); }, pos());
        case 9: return un(n, a, [](R x) { return std::sqrt(x); }, [](D d) { return std::sqrt(d); }, pos());
        case 10: return un(n, a, [](R x) { return std::abs(x); }, [](D d) { return std::abs(d); }, away());
        case 11: return un(n, a, [](R x) { return x * x; }, [](D d) { return std::pow(d, 2); });
        case 12: return un(n, a, [](R x) { return x * x * x; }, [](D d) { return std::pow(d, (T)3); });
        case 13: return un(n, a, [](R x) { return 1 / x; }, [](D d) { return std::pow(d, -1); }, away());
        case 14: return un(n, a, [](R x) { return std::sqrt(x); }, [](D d) { return std::pow(d, 0.5); }, pos());
        case 15: return un(n, a, [](R x) { return std::exp2(x); }, [](D d) { return std::pow(2, d); });
        case 16: return un(n, a, [c](R x) { return x + c; }, [c](D d) { return d + c; });
        case 17: return un(n, a, [c](R x) { return x + c; }, [c](D d) { return c + d; });
        case 18: return un(n, a, [c](R x) { return x - c; }, [c](D d) { return d - c; });
        case 19: return un(n, a, [c](R x) { return c - x; }, [c](D d) { return c - d; });
        case 20: return un(n, a, [c](R x) { return x * c; }, [c](D d) { return d * c; });
        case 21: return un(n, a, [c](R x) { return x * c; }, [c](D d) { return c * d; });
        case 22: return un(n, a, [c](R x) { return x / c; }, [c](D d) { return d / c; });
        case 23: return un(n, a, [c](R x) { return c / x; }, [c](D d) { return c / d; }, away());
        case 24: return un(n, a, [c](R x) { return x + c; }, [c](D d) { D& r = (d += c); return r; });
        case 25: return un(n, a, [c](R x) { return x - c; }, [c](D d) { D& r = (d -= c); return r; });
        case 26: return un(n, a, [c](R x) { return x * c; }, [c](D d) { D& r = (d *= c); return r; });
        case 27: return un(n, a, [c](R x) { return x / c; }, [c](D d) { D& r = (d /= c); return r; });
        case 28: return un(n, a, [](R x) { return 2 * x; }, [](D d) { d += d; return d; });
        case 29: return un(n, a, [](R x) { return (R)0; }, [](D d) { d -= d; return d; });
        case 30: return un(n, a, [](R x) { return x * x; }, [](D d) { d *= d; return d; });
        case 31: return un(n, a, [](R x) { return (R)1; }, [](D d) { d /= d; return d; }, away());
        case 32: return un(n, a, [](R x) { return x + 1; }, [](D d) { D e = d; D r = ++d; MC_CHECK(r.x == d.x and r.dx == d.dx and e.dx == d.dx, "increment", "++x"); D p = d++; MC_CHECK(p.x == r.x and p.dx == r.dx, "increment", "x++ gives ", p.x); return r; });
        case 33: return un(n, a, [](R x) { return x - 1; }, [](D d) { D e = d; D p = d--; MC_CHECK(p.x == e.x and p.dx == e.dx, "decrement", "x--"); D f = e; D r = --f; MC_CHECK(r.x == d.x and r.dx == d.dx, "decrement", "--x"); return d; });
        case 34: return un(n, a, [](R x) { return std::floor(x); }, [](D d) { return std::floor(d); }, all(a, [&](R x) { return std::abs(x - std::round(x)) > 0.02L and std::floor(x) == std::floor(a.v[2]); }));
        case 35: return un(n, a, [](R x) { return std::ceil(x); }, [](D d) { return std::ceil(d); }, all(a, [&](R x) { return std::abs(x - std::round(x)) > 0.02L and std::floor(x) == std::floor(a.v[2]); }));
        case 36: return un(n, a, [](R x) { return x * 3; }, [](D d) { return d * 3; });
        case 37: return un(n, a, [](R x) { return 2 / x; }, [](D d) { return 2 / d; }, away());
        case 38: return un(n, a, [](R x) { return (R)1; }, [](D d) { return std::pow(d, 0); });
    }
    return {};
}
static const char* BI[] = {"+", "-", "*", "/", "pow", "atan2", "min", "max", "+=", "-=", "*=", "/=", "fma", "multiply_add", "sum_of_products", "diff_of_products", "hypot", "mix", "clamp"};
enum { NB = 19 };
static Opt binary(int k, const Nd& a, const Nd& b) {
    const char* n = BI[k]; auto bnz = [&] { return all(b, [](R x) { return std::abs(x) > 0.1L; }); }; auto apart = [&] { R d0 = a.v[0] - b.v[0]; bool ok = true; for (int i = 0; i < 5; ++i) ok = ok and std::abs(a.v[i] - b.v[i]) > 0.01L and (a.v[i] > b.v[i]) == (d0 > 0); return ok; };
    switch (k) {
        case 0: return bin(n, a, b, [](R x, R y) { return x + y; }, [](const D& x, const D& y) { return x + y; });
        case 1: return bin(n, a, b, [](R x, R y) { return x - y; }, [](const D& x, const D& y) { return x - y; });
        case 2: return bin(n, a, b, [](R x, R y) { return x * y; }, [](const D& x, const D& y) { return x * y; });
        case 3: return bin(n, a, b, [](R x, R y) { return x / y; }, [](const D& x, const D& y) { return x / y; }, bnz());
        case 4: return bin(n, a, b, [](R x, R y) { return std::pow(x, y); }, [](const D& x, const D& y) { return std::pow(x, y); }, all(a, [](R x) { return x > 0.1L; }));
        case 5: { bool ok = true; for (int i = 0; i < 5; ++i) ok = ok and b.v[i] * b.v[i] + a.v[i] * a.v[i] > 0.05L and (b.v[i] > 0 or std::abs(a.v[i]) > 0.05L) and (a.v[i] > 0) == (a.v[0] > 0) | (b.v[i] > 0.05L); return bin(n, a, b, [](R y, R x) { return std::atan2(y, x); }, [](const D& y, const D& x) { return std::atan2(y, x); }, ok); }
        case 6: return bin(n, a, b, [](R x, R y) { return std::min(x, y); }, [](const D& x, const D& y) { return std::min(x, y); }, apart());
        case 7: return bin(n, a, b, [](R x, R y) { return std::max(x, y); }, [](const D& x, const D& y) { return std::max(x, y); }, apart());
        case 8: return bin(n, a, b, [](R x, R y) { return x + y; }, [](D x, const D& y) { D& r = (x += y); return r; });
        case 9: return bin(n, a, b, [](R x, R y) { return x - y; }, [](D x, const D& y) { D& r = (x -= y); return r; });
        case 10: return bin(n, a, b, [](R x, R y) { return x * y; }, [](D x, const D& y) { D& r = (x *= y); return r; });
        case 11: return bin(n, a, b, [](R x, R y) { return x / y; }, [](D x, const D& y) { D& r = (x /= y); return r; }, bnz());
        case 12: return bin(n, a, b, [](R x, R y) { return x * y + x; }, [](const D& x, const D& y) { return std::fma(x, y, x); });
        case 13: return bin(n, a, b, [](R x, R y) { return x * y + y; }, [](const D& x, const D& y) { return multiply_add(x, y, y); });
        case 14: return bin(n, a, b, [](R x, R y) { return x * x + y * 2; }, [](const D& x, const D& y) { return sum_of_products(x, x, y, D(2)); });
        case 15: return bin(n, a, b, [](R x, R y) { return x * y - 2 * x; }, [](const D& x, const D& y) { return diff_of_products(x, y, D(2), x); });
        case 16: return bin(n, a, b, [](R x, R y) { return std::sqrt(x * x + y * y); }, [](const D& x, const D& y) { return std::sqrt(sum_of_products(x, x, y, y)); }, bnz());
        case 17: return bin(n, a, b, [](R x, R y) { return (1 - x) * y + x * x; }, [](const D& x, const D& y) { return mix(x, y, x); });
        case 18: return bin(n, a, b, [](R x, R y) { return std::min(std::max(x, y), y + 5); }, [](const D& x, const D& y) { return clamp(x, y, y + 5); }, apart() and all(a, [&](R x) { return x < 4.9L + b.v[2]; }));
    }
    return {};
}
static void expressions() {
    std::vector<Nd> leaves; auto leaf = [&](R v, R s) { Nd n; n.d = D((T)v, (T)s); for (int i = 0; i < 5; ++i) n.v[i] = (T)v + (T)s * (i - 2) * H; n.s = mc::str("[", v, "+", s, "e]"); leaves.push_back(n); };
    leaf(0.75L, 1); leaf(-1.25L, 1); leaf(2, -0.5L); leaf(0.25L, 2); leaf(3, 0); leaf(0, 1);
    std::vector<Nd> one = leaves; mc::bound("leaves", leaves.size());
    bool first = true; (void)first;
    for (auto& a : leaves) for (int k = 0; k < NU; ++k) { mc::begin("depth 1", 0); mc::trace(); Opt o = unary(k, a); if (judge(o, UN[k])) one.push_back(*o); }
    for (auto& a : leaves) for (auto& b : leaves) for (int k = 0; k < NB; ++k) { mc::trace(); Opt o = binary(k, a, b); if (judge(o, BI[k])) one.push_back(*o); }
    mc::bound("expressions of depth <= 1", one.size());
    for (size_t i = 0; i < one.size(); ++i) {
        if (not mc::begin("depth 2", i)) continue; mc::state();
        auto deeper = [&](Opt& o, const char* op) { if (not judge(o, op)) return; mc::state(); if (mc::thorough()) for (int u = 0; u < NU; ++u) { mc::trace(); Opt w = unary(u, *o); judge(w, UN[u]); } };
        for (int k = 0; k < NU; ++k) { mc::trace(); Opt o = unary(k, one[i]); deeper(o, UN[k]); }
        for (size_t j = 0; j < one.size(); j += mc::tier(3, 1)) for (int k = 0; k < NB; ++k) { mc::trace(); Opt o = binary(k, one[i], one[j]); if (mc::thorough() and j % 8 == 0) deeper(o, BI[k]); else if (judge(o, BI[k])) mc::state(); }
    }
}
// ties, jumps and comparisons under every discontinuity policy
template <DiscontinuityPolicy P> static void policy(const char* name) {
    typedef Dual<T, P> Q; const T inf = std::numeric_limits<T>::infinity();
    auto pick = [&](T l, T r) -> T { switch (P) { case DiscontinuityPolicy::NaN: return std::numeric_limits<T>::quiet_NaN(); case DiscontinuityPolicy::Average: return (l + r) / 2; case DiscontinuityPolicy::Left: return l; case DiscontinuityPolicy::Right: return r; default: return l == r ? l : r > l ? inf : -inf; } };
    auto same = [](T a, T b) { return a == b or (std::isnan(a) and std::isnan(b)); };
    std::vector<T> xs{-2, -1, 0, (T)-0.0, 1, 3}, ds{-2, -1, 0, 0.5, 3};
    for (T x : xs) for (T d : ds) {
        if (not mc::begin(name, IDX++)) continue; mc::state(); const Q a(x, d); std::string c = mc::str(x, "+", d, "e");
        if (d != 0 and x == std::floor(x)) {   // at a jump
            T j = P == DiscontinuityPolicy::NaN ? std::numeric_limits<T>::quiet_NaN() : P == DiscontinuityPolicy::Inf ? std::copysign(inf, d) : 0; Q f = std::floor(a), g = std::ceil(a); mc::step(2); MC_CHECK(f.x == x and g.x == x and same(f.dx, j) and same(g.dx, j), "jump", c, " floor ", f.x, ",", f.dx, " ceil ", g.x, ",", g.dx);
        }
        { Q h(x + (T)0.5, d); Q f = std::floor(h), g = std::ceil(h); MC_CHECK(f.x == x and g.x == x + 1 and f.dx == 0 and g.dx == 0, "step", c); }
        { Q b = std::abs(a); mc::step(); MC_CHECK(b.x == std::abs(x), "abs", c); if (x != 0) MC_CHECK(b.dx == (x < 0 ? -d : d), "abs", c, " derivative ", b.dx); else if (d > 0) MC_CHECK(same(b.dx, pick(-d, d)), "abs at zero", c, " derivative ", b.dx, " expected ", pick(-d, d)); }
        { Q u; MC_CHECK(u.x == 0 and u.dx == 0, "default", "default Dual is ", u.x, "+", u.dx); Q k(x); MC_CHECK(k.x == x and k.dx == 0, "constant", c); Q w(a); MC_CHECK(w.x == x and w.dx == d, "copy", c); w = x + 1; MC_CHECK(w.x == x + 1 and w.dx == 0, "assign", c); w = a; MC_CHECK(w.x == x and w.dx == d, "assign", c); MC_CHECK((T)a == x and (int)a == (int)x, "cast", c); }
        { Dual<T, DiscontinuityPolicy::NaN> n(a); Dual<T, DiscontinuityPolicy::Left> l(a); Dual<T, DiscontinuityPolicy::Average> v(a); Dual<T, DiscontinuityPolicy::Inf> i(a); Dual<T> r(a); MC_CHECK(n.x == x and n.dx == d and l.x == x and l.dx == d and v.x == x and v.dx == d and i.x == x and i.dx == d and r.x == x and r.dx == d, "policy conversion", c, " became ", l.x, "+", l.dx); typedef typename std::conditional<sizeof(T) == 8, float, double>::type O; Dual<O> fl = a; MC_CHECK(fl.x == (O)x and fl.dx == (O)d, "cast", c); }
        { Q y = std::pow(a, 2); MC_CHECK(std::abs(y.x - x * x) < 1e-5 and std::abs(y.dx - 2 * x * d) < 1e-5, "square", c, " ", y.x, ",", y.dx); Q z = std::pow(2, a); MC_CHECK(std::abs(z.dx - std::exp2(x) * d * std::log(2.0)) < 1e-4, "power", c); Q w = std::pow(a, Q(3)); MC_CHECK(std::abs(w.x - x * x * x) < 1e-4 and std::abs(w.dx - 3 * x * x * d) < 1e-4, "constant exponent", c, " ", w.dx); }
        for (T v : {(T)NAN, inf, -inf}) { Q p(v, d), q(x, v); MC_CHECK(std::isnan(p) == std::isnan(v) and std::isnan(q) == std::isnan(v) and std::isinf(p) == std::isinf(v) and std::isinf(q) == std::isinf(v) and not std::isfinite(p) and not std::isfinite(q), "classification", v); } MC_CHECK(std::isfinite(a) and not std::isnan(a) and not std::isinf(a), "classification", c);
        for (T y : xs) for (T e : ds) {
            const Q b(y, e); std::string cc = c + mc::str(" ", y, "+", e, "e"); mc::step(8); mc::trace();
            MC_CHECK((a == b) == (x == y) and (a != b) == (x != y) and (a < b) == (x < y) and (a > b) == (x > y) and (a <= b) == (x <= y) and (a >= b) == (x >= y), "comparison", cc); MC_CHECK((a < y) == (x < y) and (a == y) == (x == y) and (a >= y) == (x >= y), "comparison with scalar", cc);
            if (a == b) MC_CHECK((geom::hash<Q, size_t>(a) == geom::hash<Q, size_t>(b) and std::hash<Q>()(a) == std::hash<Q>()(b)), "hash", cc, ": equal Duals hash differently");
            Q lo = std::min(a, b), hi = std::max(a, b); MC_CHECK(lo.x == std::min(x, y) and hi.x == std::max(x, y), "min/max value", cc);
            if (x == y) { MC_CHECK(same(lo.dx, pick(std::max(d, e), std::min(d, e))), "min tie", cc, " derivative ", lo.dx); MC_CHECK(same(hi.dx, pick(std::min(d, e), std::max(d, e))), "max tie", cc, " derivative ", hi.dx); } else MC_CHECK(lo.dx == (x < y ? d : e) and hi.dx == (x < y ? e : d), "min/max derivative", cc);
            Q s = a * b - b + a; MC_CHECK(s.x == x * y - y + x and s.dx == x * e + d * y - e + d, "arithmetic", cc);
        }
    }
}
// scalar operands of every arithmetic type, on either side
template <typename U> static void scalars(const char* name) {
    for (T x : {(T)-2.5, (T)-1, (T)0.5, (T)2, (T)7}) for (T d : {(T)-1.5, (T)0, (T)1, (T)4}) for (int ki : {1, 2, 3, 5}) {
        if (not mc::begin("scalar types", IDX++)) continue; mc::state(); const D a(x, d); const U k = (U)ki; const T kf = (T)k; std::string c = mc::str(x, "+", d, "e and ", name, " ", ki); const T tol = sizeof(T) == 8 ? 1e-12 : 1e-4;
        auto is = [&](const D& r, R v, R dv, const char* op) { mc::step(); MC_CHECK(std::abs(r.x - v) <= tol * (1 + std::abs(v)) and std::abs(r.dx - dv) <= tol * (1 + std::abs(dv)), "scalar operand", c, " ", op, " gives ", r.x, "+", r.dx, "e, expected ", v, "+", dv, "e"); };
        const R X = x, V = d, K = kf;
        is(a + k, X + K, V, "x+k"); is(k + a, X + K, V, "k+x"); is(a - k, X - K, V, "x-k"); is(k - a, K - X, -V, "k-x"); is(a * k, X * K, V * K, "x*k"); is(k * a, X * K, V * K, "k*x"); is(a / k, X / K, V / K, "x/k"); is(k / a, K / X, -K * V / (X * X), "k/x");
        { D r = a; r += k; is(r, X + K, V, "x+=k"); } { D r = a; r -= k; is(r, X - K, V, "x-=k"); } { D r = a; r *= k; is(r, X * K, V * K, "x*=k"); } { D r = a; r /= k; is(r, X / K, V / K, "x/=k"); } { D r = a; r = (T)k; is(r, K, 0, "x=k"); }
        for (int own = 0; own < 2; ++own) { auto f = [own](D& r) -> T& { return own ? r.dx : r.x; }; R O = own ? V : X; { D r = a; r += f(r); is(r, X + O, V, "x+=own"); } { D r = a; r -= f(r); is(r, X - O, V, "x-=own"); } { D r = a; r *= f(r); is(r, X * O, V * O, "x*=own"); } if (O != 0) { D r = a; r /= f(r); is(r, X / O, V / O, "x/=own"); } { D r = a; r = f(r); is(r, O, 0, "x=own"); } }
        is(std::pow(k, a), std::pow(K, X), std::pow(K, X) * V * std::log(K), "k^x"); if (x > 0 or std::floor(kf) == kf) is(std::pow(a, k), std::pow(X, K), K * std::pow(X, K - 1) * V, "x^k");
    }
}
void mc_run() {
    IDX = 0; mc::bound("element type", sizeof(T) == 8 ? "double" : "float"); mc::bound("unary operations", (int)NU); mc::bound("binary operations", (int)NB);
    if (mc::part("expr")) expressions();
    if (mc::part("policy")) { policy<DiscontinuityPolicy::NaN>("policy NaN"); policy<DiscontinuityPolicy::Average>("policy Average"); policy<DiscontinuityPolicy::Left>("policy Left"); policy<DiscontinuityPolicy::Right>("policy Right"); policy<DiscontinuityPolicy::Inf>("policy Inf"); }
    if (mc::part("policy")) { scalars<int>("int"); scalars<unsigned>("unsigned"); scalars<short>("short"); scalars<unsigned char>("unsigned char"); scalars<long>("long"); scalars<uint64_t>("uint64"); scalars<float>("float"); scalars<double>("double"); scalars<long double>("long double"); }
}
