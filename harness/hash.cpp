// C37: equality and digests. For every pair of values of a lattice: equal values have equal digests, distinct ones distinct digests.
#include "mc.h"
#include "lat.h"
#include <string>
#include <tuple>
#include <set>
#include <geomc/linalg/Vec.h>
#include <geomc/linalg/Matrix.h>
#include <geomc/linalg/Quaternion.h>
#include <geomc/linalg/AffineTransform.h>
#include <geomc/function/Dual.h>
#include <geomc/shape/Rect.h>
#include <geomc/shape/Simplex.h>
#include <geomc/shape/Sphere.h>
#include <geomc/shape/Plane.h>
#include <geomc/shape/Dilated.h>
#include <geomc/shape/Oriented.h>
#include <geomc/shape/Capsule.h>
#include <geomc/shape/Frustum.h>
#include <geomc/shape/Cylinder.h>
#include <geomc/shape/Extruded.h>
using namespace geom;
static uint64_t IDX;
typedef std::vector<double> Id;
template <typename S> struct VI { S first; Id second; };
template <typename S> bool same(const S& a, const S& b) { return a == b; }
template <typename T, index_t N> bool same(const Ray<T, N>& a, const Ray<T, N>& b) { return a.origin == b.origin and a.direction == b.direction; }
// vals: the values, each with an independent identity (a tuple of numbers, in which -0 and 0 are the same)
template <typename S> void judge(const char* name, const std::vector<VI<S>>& vals) {
    mc::bound(name, vals.size()); std::vector<size_t> h; std::vector<uint32_t> h32;
    for (auto& v : vals) { h.push_back(geom::hash<S, size_t>(v.first)); h32.push_back(geom::hash<S, uint32_t>(v.first)); mc::step(2); }
    for (size_t i = 0; i < vals.size(); ++i) {
        if (not mc::begin(name, i)) continue; mc::state(); mc::trace(); if constexpr (std::is_default_constructible<std::hash<S>>::value) MC_CHECK(std::hash<S>()(vals[i].first) == h[i], "std::hash", name, " ", lat::show(vals[i].second)); S copy(vals[i].first); MC_CHECK((geom::hash<S, size_t>(copy) == h[i]), "copy", name); MC_CHECK(same(copy, vals[i].first), "copy", name);
        size_t clash = 0, clash32 = 0; 
        for (size_t j = 0; j < vals.size(); ++j) {
            mc::step(); bool eq = vals[i].second == vals[j].second; MC_CHECK(same(vals[i].first, vals[j].first) == eq, "equality", name, " ", lat::show(vals[i].second), " == ", lat::show(vals[j].second), " is ", not eq);
            if (eq) MC_CHECK(h[i] == h[j] and h32[i] == h32[j], "equal values hash equally", name, " ", lat::show(vals[i].second)); else { clash += h[i] == h[j]; clash32 += h32[i] == h32[j]; }
        }
        // distinct values: systematic collisions mean a component or its position is ignored (chance ones are rare at 64 bits)
        MC_CHECK(clash <= 1 + vals.size() / 200, "distinct values are told apart", name, " ", lat::show(vals[i].second), " shares its digest with ", clash, " other values of ", vals.size());
    }
}
template <size_t K, typename S, typename F> void lattice(const char* name, const std::vector<double>& el, F make, const std::vector<double>& = {}) {
    std::vector<VI<S>> v; lat::tuples<K, double>(el, [&](const std::array<double, K>& a) { Id id; for (double x : a) id.push_back(x == 0 ? 0.0 : x); v.push_back({make(a), id}); }); judge<S>(name, v);
}
/// digests made by f from identities: distinct identities (including nonces, positions, lengths and element order) are told apart
template <typename H> void apart(const std::string& name, const std::vector<std::pair<Id, H>>& v) {
    mc::bound(name, v.size());
    for (size_t i = 0; i < v.size(); ++i) { if (not mc::begin(name.c_str(), i)) continue; mc::state(); mc::trace(); size_t clash = 0; for (auto& w : v) { mc::step(); if (w.first == v[i].first) MC_CHECK(w.second == v[i].second, "equal parts combine equally", name, " ", lat::show(w.first)); else clash += w.second == v[i].second; }
        MC_CHECK(clash <= std::max<size_t>(3, v.size() / 100), "distinct parts are told apart", name, " ", lat::show(v[i].first), " shares its digest with ", clash, " of ", v.size()); }
}
template <typename H> void combine(const std::string& w) {
    typedef std::vector<std::pair<Id, H>> L; const std::vector<H> hs{0, 1, 2, 3, 255, 256, (H)~(H)0, (H)((H)1 << (8 * sizeof(H) - 1)), (H)((H)1 << (4 * sizeof(H)))}; auto id = [&](std::initializer_list<H> l) { Id o; for (H h : l) { o.push_back((double)(uint32_t)h); o.push_back((double)(uint64_t)((unsigned __int128)h >> 32)); o.push_back((double)(uint64_t)((unsigned __int128)h >> 64)); } return o; };
    // a later part always shows: one to one in it whatever came before
    for (H a : hs) { if (not mc::begin(("one to one " + w).c_str(), IDX++)) continue; mc::state(); std::set<H> seen; const size_t n = 1 << 16; for (size_t b = 0; b < n; ++b) { mc::step(); seen.insert(hash_combine<H>(a, (H)b)); } MC_CHECK(seen.size() == n, "hash_combine is one to one in its second part", w, " first part ", (double)a, ": only ", seen.size(), " digests of ", n, " parts"); }
    L two, three, arr; for (H a : hs) for (H b : hs) { two.push_back({id({a, b}), hash_combine<H>(a, b)}); for (H c : hs) three.push_back({id({a, b, c}), hash_combine_many<H>(a, b, c)}); } apart("hash_combine " + w, two); apart("hash_combine_many " + w, three);
    for (H n : {(H)0, (H)7}) for (int len = 0; len <= 3; ++len) { auto go = [&](const std::vector<H>& e) { Id o{(double)n, (double)len}; for (H x : e) for (double y : id({x})) o.push_back(y); arr.push_back({o, hash_array<H, H>(n, e.data(), e.size())}); }; if (len == 0) go({}); else lat::tuples_n<H>(len, {0, 1, 2, (H)((H)5 << (4 * sizeof(H)))}, go); } apart("hash_array " + w, arr);
    L many; for (H n : {(H)0, (H)3}) lat::tuples<3, H>({0, 1, 2, 9, 100, 1000}, [&](const std::array<H, 3>& e) { many.push_back({id({n, e[0], e[1], e[2]}), hash_many<H>(n, e[0], e[1], e[2])}); }); apart("hash_many " + w, many);
    // byte strings: every string of up to three bytes over a small alphabet, and both halves of the nonce
    L str, pair; std::vector<H> nonces{0, 1, (H)((H)1 << (8 * sizeof(H) - 2))}; for (H n : nonces) for (int len = 0; len <= mc::tier(3, 4); ++len) { auto go = [&](const std::vector<int>& c) { std::string t; Id o = id({n}); o.push_back(len); for (int x : c) { t.push_back((char)x); o.push_back(x); } str.push_back({o, hash_bytes<H>(n, t.data(), t.size())}); if (n == 0) { std::string u(t); u.reserve(64); MC_CHECK((geom::hash<std::string, H>(t) == geom::hash<std::string, H>(u)), "string", w); MC_CHECK((geom::hash<std::string, H>(t) == geom::hash<std::string_view, H>(u)), "string view", w); o.push_back(-1); pair.push_back({o, geom::hash<std::tuple<std::string, std::string>, H>({t, "x"})}); o.back() = -2; pair.push_back({o, geom::hash<std::tuple<std::string, std::string>, H>({"y", t})}); } }; if (len == 0) go({}); else lat::tuples_n<int>(len, {0, 1, 'a', 200}, go); } apart("hash_bytes " + w, str); apart("tuple of strings " + w, pair);
}
void mc_run() {
    IDX = 0;
#ifdef WIDE // 128 bit digests need a standard library which knows the type as an integer (-std=gnu++20)
    combine<unsigned __int128>("128 bit"); return;
#endif
    const std::vector<double> few{0.0, -0.0, 1, -2.5}, mid{0.0, -0.0, 1, -1, 0.5, 3}, two{0.0, -0.0, 2}; const std::vector<double> many = mc::tier(mid, std::vector<double>{0.0, -0.0, 1, -1, 0.5, 3, 1e9, -7});
    typedef std::array<double, 2> A2; typedef std::array<double, 3> A3; typedef std::array<double, 4> A4; typedef std::array<double, 5> A5; typedef std::array<double, 6> A6; typedef Vec<double, 2> V2; typedef Vec<double, 3> V3;
    lattice<2, V2>("Vec<double,2>", many, [](const A2& a) { return V2(a[0], a[1]); }); lattice<3, V3>("Vec<double,3>", many, [](const A3& a) { return V3(a[0], a[1], a[2]); }); lattice<4, Vec<float, 4>>("Vec<float,4>", few, [](const A4& a) { return Vec<float, 4>(a[0], a[1], a[2], a[3]); }); lattice<5, Vec<double, 5>>("Vec<double,5>", two, [](const A5& a) { Vec<double, 5> v; for (int i = 0; i < 5; ++i) v[i] = a[i]; return v; }); lattice<3, Vec<int, 3>>("Vec<int,3>", {0, 1, 2, -1, 7, 100}, [](const A3& a) { return Vec<int, 3>(a[0], a[1], a[2]); });
    lattice<4, Quat<double>>("Quat", few, [](const A4& a) { return Quat<double>(a[0], a[1], a[2], a[3]); }); lattice<4, Ray<double, 2>>("Ray", few, [](const A4& a) { return Ray<double, 2>(V2(a[0], a[1]), V2(a[2], a[3])); });
    lattice<4, SimpleMatrix<double, 2, 2>>("SimpleMatrix<2,2>", few, [](const A4& a) { SimpleMatrix<double, 2, 2> m; std::copy(a.begin(), a.end(), m.begin()); return m; }); lattice<6, SimpleMatrix<double, 2, 3, COL_MAJOR>>("SimpleMatrix<2,3,COL>", two, [](const A6& a) { SimpleMatrix<double, 2, 3, COL_MAJOR> m; for (int i = 0; i < 6; ++i) m(i / 3, i % 3) = a[i]; return m; }); lattice<4, SimpleMatrix<double, 0, 0>>("SimpleMatrix dynamic", few, [](const A4& a) { SimpleMatrix<double, 0, 0> m(2, 2); for (int i = 0; i < 4; ++i) m(i / 2, i % 2) = a[i]; return m; });
    lattice<4, AffineTransform<double, 2>>("AffineTransform<2>", {1, 2, -3, 0.5}, [](const A4& a) { return translation(a[0], a[1]) * scale(a[2], a[3]); });
    { std::vector<VI<Dual<double>>> v; for (double x : many) for (double d : few) v.push_back({Dual<double>(x, d), {x == 0 ? 0.0 : x}}); judge<Dual<double>>("Dual", v); } // a dual number compares by its value
    { std::vector<std::pair<std::tuple<int, double>, Id>> v; for (int i : {0, 1, 2, -4}) for (double d : {0.0, -0.0, 1.0, 2.0, 0.25}) v.push_back({{i, d}, {(double)i, d == 0 ? 0.0 : d}}); mc::bound("tuple", v.size()); for (auto& a : v) { if (not mc::begin("tuple", IDX++)) continue; for (auto& b : v) { size_t h = geom::hash<std::tuple<int, double>, size_t>(a.first), g = geom::hash<std::tuple<int, double>, size_t>(b.first); mc::step(); mc::trace(); MC_CHECK((h == g) == (a.second == b.second), "tuple", lat::show(a.second), " ", lat::show(b.second)); } } }
    { // tuples with repeated element types, nested tuples, and the empty tuple
      lattice<2, std::tuple<double, double>>("tuple<2>", many, [](const A2& a) { return std::tuple<double, double>(a[0], a[1]); });
      lattice<3, std::tuple<double, double, double>>("tuple<3>", mid, [](const A3& a) { return std::tuple<double, double, double>(a[0], a[1], a[2]); });
      lattice<4, std::tuple<V2, double, double>>("tuple<Vec,2>", few, [](const A4& a) { return std::tuple<V2, double, double>(V2(a[0], a[1]), a[2], a[3]); });
      lattice<3, std::tuple<double, std::tuple<double, double>>>("tuple<tuple>", few, [](const A3& a) { return std::tuple<double, std::tuple<double, double>>(a[0], {a[1], a[2]}); });
      judge<std::tuple<>>("tuple<0>", {{std::tuple<>(), Id{}}}); }
    lattice<4, Rect<double, 2>>("Rect<double,2>", few, [](const A4& a) { return Rect<double, 2>(V2(a[0], a[1]), V2(a[2], a[3])); }); lattice<2, Rect<double, 1>>("Rect<double,1>", many, [](const A2& a) { return Rect<double, 1>(a[0], a[1]); });
    lattice<3, Sphere<double, 2>>("Sphere", many, [](const A3& a) { return Sphere<double, 2>(V2(a[0], a[1]), a[2]); }); lattice<3, Plane<double, 2>>("Plane", {1, 2, -3}, [](const A3& a) { Plane<double, 2> p(V2(1, 0), 0.); p.normal = V2(a[0], a[1]); p.d = a[2]; return p; });
    lattice<5, Capsule<double, 2>>("Capsule", two, [](const A5& a) { Capsule<double, 2> c; c.p0 = V2(a[0], a[1]); c.p1 = V2(a[2], a[3]); c.radius = a[4]; return c; }); lattice<5, Cylinder<double, 2>>("Cylinder", two, [](const A5& a) { Cylinder<double, 2> c; c.p0 = V2(a[0], a[1]); c.p1 = V2(a[2], a[3]); c.radius = a[4]; return c; });
    lattice<4, Extruded<Rect<double, 1>>>("Extruded", few, [](const A4& a) { return Extruded<Rect<double, 1>>(Rect<double, 1>(a[0], a[1]), Rect<double, 1>(a[2], a[3])); }); lattice<4, Frustum<Rect<double, 1>>>("Frustum", few, [](const A4& a) { Frustum<Rect<double, 1>> f(Rect<double, 1>(a[0], a[1]), 0., 1.); f.height = Rect<double, 1>(a[2], a[3]); return f; });
    lattice<5, Dilated<Rect<double, 2>>>("Dilated", two, [](const A5& a) { return Dilated<Rect<double, 2>>(Rect<double, 2>(V2(a[0], a[1]), V2(a[2], a[3])), a[4]); }); lattice<6, Oriented<Rect<double, 2>>>("Oriented", two, [](const A6& a) { return Oriented<Rect<double, 2>>(Rect<double, 2>(V2(a[0], a[1]), V2(a[2], a[3])), translation(a[4], a[5])); });
    // simplices: vertices beyond the used ones must not matter
    { std::vector<VI<Simplex<double, 2>>> v; std::vector<V2> p{V2(0, 0), V2(-0.0, 0), V2(1, 0), V2(0, 1), V2(2, -1)}; auto key = [](Id& id, V2 q) { id.push_back(q.x == 0 ? 0.0 : q.x); id.push_back(q.y == 0 ? 0.0 : q.y); };
      for (int n = 0; n <= 3; ++n) { std::vector<int> ix{0, 1, 2, 3, 4}; auto go = [&](const std::vector<int>& c) { for (int junk = 0; junk < (n < 3 ? 2 : 1); ++junk) { Simplex<double, 2> s; if (junk) for (int i = 0; i < 3; ++i) s.pts[i] = V2(55 + i, -junk); s.n = 0; Id id{(double)n}; for (int i : c) { s.pts[s.n++] = p[i]; key(id, p[i]); } v.push_back({s, id}); } }; if (n == 0) go({}); else lat::tuples_n<int>(n, ix, go); } judge<Simplex<double, 2>>("Simplex", v); }
#ifndef WIDE
    combine<uint16_t>("16 bit"); combine<uint32_t>("32 bit"); combine<uint64_t>("64 bit");
#endif
}
