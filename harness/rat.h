// Exact rational scalar: instantiating geomc templates with it makes every comparison exact.
#pragma once
#include <cstdint>
#include <cstdlib>
#include <iostream>
#include <limits>
#include <type_traits>
struct Rat {
    typedef __int128 W;
    int64_t n = 0, d = 1;
    constexpr Rat() = default;
    template <typename I, typename = std::enable_if_t<std::is_integral_v<I>>> constexpr Rat(I v) : n((int64_t) v), d(1) {}
    // only exactly representable small binary fractions are ever used as literals
    Rat(double v) { d = 1; while (v != (double)(int64_t) v) { v *= 2; d *= 2; } n = (int64_t) v; norm(n, d); }
    Rat(W nn, W dd, int) { norm(nn, dd); }
    static W gcd(W a, W b) { if (a < 0) a = -a; if (b < 0) b = -b; while (b) { W t = a % b; a = b; b = t; } return a; }
    static bool& overflow() { static bool o = false; return o; }
    static bool& divzero() { static bool o = false; return o; }
    void norm(W nn, W dd) {
        if (dd == 0) { divzero() = true; n = 0; d = 1; return; }
        if (dd < 0) { nn = -nn; dd = -dd; }
        W g = gcd(nn, dd); if (g > 1) { nn /= g; dd /= g; }
        if (nn > INT64_MAX or nn < INT64_MIN + 1 or dd > INT64_MAX) { overflow() = true; n = 0; d = 1; return; }
        n = (int64_t) nn; d = (int64_t) dd;
    }
    friend Rat operator+(const Rat& a, const Rat& b) { if (a.d == 1 and b.d == 1) { Rat r; r.n = a.n + b.n; return r; } return Rat((W)a.n * b.d + (W)b.n * a.d, (W)a.d * b.d, 0); }
    friend Rat operator-(const Rat& a, const Rat& b) { if (a.d == 1 and b.d == 1) { Rat r; r.n = a.n - b.n; return r; } return Rat((W)a.n * b.d - (W)b.n * a.d, (W)a.d * b.d, 0); }
    friend Rat operator*(const Rat& a, const Rat& b) { return Rat((W)a.n * b.n, (W)a.d * b.d, 0); }
    friend Rat operator/(const Rat& a, const Rat& b) { return Rat((W)a.n * b.d, (W)a.d * b.n, 0); }
    friend Rat operator-(const Rat& a) { Rat r; r.n = -a.n; r.d = a.d; return r; }
    friend Rat operator+(const Rat& a) { return a; }
    Rat& operator+=(const Rat& b) { return *this = *this + b; }
    Rat& operator-=(const Rat& b) { return *this = *this - b; }
    Rat& operator*=(const Rat& b) { return *this = *this * b; }
    Rat& operator/=(const Rat& b) { return *this = *this / b; }
    friend bool operator==(const Rat& a, const Rat& b) { return a.n == b.n and a.d == b.d; }
    friend bool operator!=(const Rat& a, const Rat& b) { return !(a == b); }
    friend bool operator<(const Rat& a, const Rat& b) { return (W)a.n * b.d < (W)b.n * a.d; }
    friend bool operator>(const Rat& a, const Rat& b) { return b < a; }
    friend bool operator<=(const Rat& a, const Rat& b) { return !(b < a); }
    friend bool operator>=(const Rat& a, const Rat& b) { return !(a < b); }
    explicit operator double() const { return (double) n / (double) d; }
    explicit operator bool() const { return n != 0; }
    friend std::ostream& operator<<(std::ostream& o, const Rat& r) { o << r.n; if (r.d != 1) o << "/" << r.d; return o; }
};
namespace std {
inline Rat abs(const Rat& r) { return r.n < 0 ? -r : r; }
}
