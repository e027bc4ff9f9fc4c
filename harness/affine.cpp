// C28: affine transforms against long double homogeneous matrices.
#include "mc.h"
#include "lat.h"
#include <geomc/linalg/Vec.h>
#include <geomc/linalg/Quaternion.h>
#include <geomc/linalg/Ray.h>
#include <geomc/linalg/AffineTransform.h>
using namespace geom;
typedef long double R;
#ifndef ET
#define ET double
#endif
typedef ET T;
static uint64_t IDX;
static const R TOL = sizeof(T) == 8 ? 1e-11L : 1e-4L;
template <index_t N> struct Mx {
    R a[N + 1][N + 1];
    Mx() { for (int i = 0; i <= N; ++i) for (int j = 0; j <= N; ++j) a[i][j] = i == j; }
    friend Mx operator*(const Mx& x, const Mx& y) { Mx o; for (int i = 0; i <= N; ++i) for (int j = 0; j <= N; ++j) { R s = 0; for (int k = 0; k <= N; ++k) s += x.a[i][k] * y.a[k][j]; o.a[i][j] = s; } return o; }
    R mag() const { R m = 1; for (auto& r : a) for (R v : r) m = std::max(m, std::abs(v)); return m; }
};
// independent inverse: Gauss-Jordan with full row pivoting, in long double
template <index_t N> Mx<N> invert(Mx<N> m) {
    Mx<N> o; const int n = N + 1;
    for (int c = 0; c < n; ++c) {
        int p = c; for (int r = c; r < n; ++r) if (std::abs(m.a[r][c]) > std::abs(m.a[p][c])) p = r;
        for (int j = 0; j < n; ++j) { std::swap(m.a[p][j], m.a[c][j]); std::swap(o.a[p][j], o.a[c][j]); }
        R d = m.a[c][c]; for (int j = 0; j < n; ++j) { m.a[c][j] /= d; o.a[c][j] /= d; }
        for (int r = 0; r < n; ++r) if (r != c) { R f = m.a[r][c]; for (int j = 0; j < n; ++j) { m.a[r][j] -= f * m.a[c][j]; o.a[r][j] -= f * o.a[c][j]; } }
    }
    return o;
}
template <index_t N> using Pair = std::pair<Mx<N>, Mx<N>>;   // forward, inverse
template <index_t N> struct Chk {
    typedef AffineTransform<T, N> X; typedef Vec<T, N> V; typedef std::array<R, N> A;
    static std::string ctx;
    static bool near(R a, R b, R s) { return std::abs(a - b) <= TOL * std::max<R>(1, s); }
    static void mat(const char* key, const SimpleMatrix<T, N + 1, N + 1>& m, const Mx<N>& e, R s) {
        for (int i = 0; i <= N; ++i) for (int j = 0; j <= N; ++j) if (not near(m(i, j), e.a[i][j], s)) { mc::fail(key, mc::str(ctx, ": element (", i, ",", j, ") is ", m(i, j), " expected ", e.a[i][j])); return; }
    }
    static void vec(const char* key, const V& v, const A& e, R s) { mc::step(); for (int i = 0; i < N; ++i) if (not near(v[i], e[i], s)) { mc::fail(key, mc::str(ctx, ": ", key, " gave ", v, " expected ", lat::show(e))); return; } }
    static A act(const Mx<N>& m, const A& p, R w) { A o; for (int i = 0; i < N; ++i) { R s = w * m.a[i][N]; for (int j = 0; j < N; ++j) s += m.a[i][j] * p[j]; o[i] = s; } return o; }
    static A actT(const Mx<N>& m, const A& p) { A o; for (int i = 0; i < N; ++i) { R s = 0; for (int j = 0; j < N; ++j) s += m.a[j][i] * p[j]; o[i] = s; } return o; }
    static V v_(const A& a) { V v; for (int i = 0; i < N; ++i) v[i] = (T)a[i]; return v; }
    static A add(A a, const A& b) { for (int i = 0; i < N; ++i) a[i] += b[i]; return a; }
    static std::vector<A> points(bool full) {
        std::vector<A> o; std::vector<R> vals = full ? std::vector<R>{-1, 0, 1, 2.5L} : std::vector<R>{0, 1};
        lat::tuples<N, R>(vals, [&](const std::array<R, N>& a) { o.push_back(a); });
        if (not full) { A p; for (int i = 0; i < N; ++i) p[i] = i * 1.5L - 2; o = {p, A{}}; A q{}; q[0] = 1; o.push_back(q); }
        return o;
    }
    // the transform x must denote the map m, with inverse mi
    static void is(const X& x, const Mx<N>& m, const Mx<N>& mi, bool full) {
        R s = m.mag() * mi.mag(); mc::step(); mc::trace();
        mat("matrix", x.mat, m, s); mat("inverse matrix", x.inv, mi, s * mi.mag());
        R sm = s * 8;
        for (const A& p : points(full)) {
            V v = v_(p);
            vec("apply point", x.apply(v), act(m, p, 1), sm); vec("apply point", x * v, act(m, p, 1), sm); vec("apply vector", x.apply_vector(v), act(m, p, 0), sm); vec("apply normal", x.apply_normal(v), actT(mi, p), sm);
            vec("inverse point", x.apply_inverse(v), act(mi, p, 1), sm); vec("inverse point", v / x, act(mi, p, 1), sm); vec("inverse vector", x.apply_inverse_vector(v), act(mi, p, 0), sm); vec("inverse normal", x.apply_inverse_normal(v), actT(m, p), sm);
            vec("round trip", x.apply_inverse(x.apply(v)), p, sm); vec("round trip", x.apply(x.apply_inverse(v)), p, sm);
            if (full) {
                A d; for (int i = 0; i < N; ++i) d[i] = p[(i + 1) % N] + 1; Ray<T, N> r(v, v_(d)); Ray<T, N> f = x * r, b = r / x;
                vec("ray origin", f.origin, act(m, p, 1), sm); vec("ray direction", f.direction, act(m, d, 0), sm); vec("inverse ray origin", b.origin, act(mi, p, 1), sm); vec("inverse ray direction", b.direction, act(mi, d, 0), sm);
                for (R t : {0.0L, 1.0L, -2.0L}) { A q; for (int i = 0; i < N; ++i) q[i] = p[i] + t * d[i]; vec("ray point", f.at_multiple((T)t), act(m, q, 1), sm * 4); }
                // a normal stays orthogonal to transformed tangents
                A n{}; n[0] = -d[1]; n[1] = d[0]; V tv = x.apply_vector(v_(d)), nv = x.apply_normal(v_(n)); R dp = 0, want = 0; for (int i = 0; i < N; ++i) { dp += (R)tv[i] * nv[i]; want += n[i] * d[i]; } if (not near(dp, want, sm * 20)) mc::fail("normal", mc::str(ctx, ": normal . tangent is ", dp, " was ", want));
            }
        }
        X y = x.inverse(); bool ok = true; for (int i = 0; i <= N; ++i) for (int j = 0; j <= N; ++j) ok = ok and y.mat(i, j) == x.inv(i, j) and y.inv(i, j) == x.mat(i, j); MC_CHECK(ok, "inverse", ctx, ": inverse() does not exchange the matrices");
        auto dm = x.direction_matrix(); for (int i = 0; i < N; ++i) for (int j = 0; j < N; ++j) MC_CHECK(dm(i, j) == x.mat(i, j), "direction_matrix", ctx);
        X z = x; MC_CHECK(z == x, "equality", ctx, ": a copy differs"); MC_CHECK((geom::hash<X, size_t>(z) == geom::hash<X, size_t>(x)), "hash", ctx);
        z.mat(0, N) += 64; MC_CHECK(not (z == x), "equality", ctx, ": a changed transform compares equal");
        typedef typename std::conditional<sizeof(T) == 8, float, double>::type O;
        AffineTransform<O, N> c = (AffineTransform<O, N>)x; for (int i = 0; i <= N; ++i) for (int j = 0; j <= N; ++j) MC_CHECK(c.mat(i, j) == (O)x.mat(i, j) and c.inv(i, j) == (O)x.inv(i, j), "cast", ctx);
    }
    struct Gen { std::string name; X x; Mx<N> m, mi; };
    static std::vector<Gen> gens(bool deep) {
        std::vector<Gen> o; auto put = [&](std::string n, X x, Mx<N> m) { o.push_back({n, x, m, invert(m)}); };
        { V t; Mx<N> m; for (int i = 0; i < N; ++i) { t[i] = (T)(i * 2 - 1); m.a[i][N] = t[i]; } put("translate", translation(t), m); }
        { V t; Mx<N> m; R sc[5] = {2, -0.5L, 1, 4, -2}; for (int i = 0; i < N; ++i) { t[i] = (T)sc[i]; m.a[i][i] = t[i]; } put("scale", scale(t), m); }
        { SimpleMatrix<T, N, N> s; Mx<N> m; s(0, N - 1) = 1.5; m.a[0][N - 1] = 1.5; s(N - 1, 0) = -1; m.a[N - 1][0] = -1; put("shear", transformation(s), m); }
        { SimpleMatrix<T, N, N> s; Mx<N> m; for (int i = 0; i < N; ++i) for (int j = 0; j < N; ++j) { m.a[i][j] = j == (i + 1) % N; s(i, j) = (T)m.a[i][j]; } put("cycle axes", transformation(s), m); }
        if constexpr (N == 2) { T th = (T)0.7; Mx<N> m; m.a[0][0] = m.a[1][1] = std::cos((R)th); m.a[0][1] = -(m.a[1][0] = std::sin((R)th)); put("rotate", rotation(th), m); }
        if constexpr (N == 3) { T th = (T)-1.1; Mx<N> m = rod({1, 2, -2}, th, {0, 0, 0}); put("rotate", rotation(V(1, 2, -2), th), m); if (deep) { m = rod({0, 3, 4}, th, {1, -1, 2}); put("rotate about point", rotation(V(0, 3, 4), V(1, -1, 2), th), m); } }
        return o;
    }
    static Mx<N> rod(std::array<R, 3> k, R th, std::array<R, 3> ctr) {
        Mx<N> o; if constexpr (N == 3) {
            R l = std::sqrt(k[0] * k[0] + k[1] * k[1] + k[2] * k[2]); for (R& x : k) x /= l; R c = std::cos(th), s = std::sin(th);
            R K[3][3] = {{0, -k[2], k[1]}, {k[2], 0, -k[0]}, {-k[1], k[0], 0}};
            for (int i = 0; i < 3; ++i) for (int j = 0; j < 3; ++j) o.a[i][j] = (i == j) * c + (1 - c) * k[i] * k[j] + s * K[i][j];
            for (int i = 0; i < 3; ++i) { R q = ctr[i]; for (int j = 0; j < 3; ++j) q -= o.a[i][j] * ctr[j]; o.a[i][3] = q; }
        } return o;
    }
    static void compose() {
        std::vector<Gen> g = gens(mc::thorough()); const int depth = mc::tier(3, N == 4 ? 3 : 4);
        mc::bound(mc::str("generators ", N, "D"), g.size()); mc::bound(mc::str("composition depth ", N, "D"), depth);
        const char* opn[] = {"g*x", "x*g", "x*=g", "x/=g", "x/g", "x.apply(g)", "x.apply_inverse(g)", "g.apply_inverse(x)", "g/x"};
        uint64_t idx = 0;
        for (size_t first = 0; first < g.size(); ++first) for (int o0 = 0; o0 < 9; ++o0) for (size_t second = 0; second < g.size(); ++second) {
            if (not mc::begin(N == 2 ? "compose 2D" : N == 3 ? "compose 3D" : "compose 4D", idx++)) continue;
            std::function<void(X, Mx<N>, Mx<N>, std::string, int)> go = [&](X x, Mx<N> m, Mx<N> mi, std::string h, int d) {
                ctx = h; is(x, m, mi, false); uint64_t hs = N; for (auto& r : m.a) for (R v : r) hs = mc::mix(hs, (uint64_t)(int64_t)std::llround(v * 1e6L)); mc::state(hs); if (d == depth) return;
                for (size_t k = 0; k < g.size(); ++k) {
                    if ((d == 0 and k != first) or (d == 1 and k != second)) continue;
                    for (int o = 0; o < 9; ++o) {
                        if (d == 0 and o != o0) continue; 
                        X y = x; Mx<N> f, b; const Gen& q = g[k];
                        switch (o) {
                            case 0: y = q.x * x; f = q.m * m; b = mi * q.mi; break;                        // x then g
                            case 1: y = x * q.x; f = m * q.m; b = q.mi * mi; break;                        // g then x
                            case 2: { X& r = (y *= q.x); MC_CHECK(&r == &y, "chain", h); f = q.m * m; b = mi * q.mi; break; }   // x then g
                            case 3: { X& r = (y /= q.x); MC_CHECK(&r == &y, "chain", h); f = q.mi * m; b = mi * q.m; break; }   // x then g^-1
                            case 4: y = x / q.x; f = q.mi * m; b = mi * q.m; break;
                            case 5: y = x.apply(q.x); f = q.m * m; b = mi * q.mi; break;
                            case 6: y = x.apply_inverse(q.x); f = q.mi * m; b = mi * q.m; break;
                            case 7: y = q.x.apply_inverse(x); f = mi * q.m; b = q.mi * m; break;
                            case 8: y = q.x / x; f = mi * q.m; b = q.mi * m; break;
                        }
                        go(y, f, b, h + " ; " + opn[o] + "[" + q.name + "]", d + 1);
                    }
                }
            };
            go(X(), Mx<N>(), Mx<N>(), "identity", 0);
        }
        // operations whose operands are the same object
        for (auto& q : g) for (auto& w : g) {
            if (not mc::begin("self", IDX++)) continue; ctx = mc::str(N, "D self ", q.name, " after ", w.name);
            X x = q.x * w.x; Mx<N> m = q.m * w.m, mi = w.mi * q.mi, id; { X y = x; y *= y; is(y, m * m, mi * mi, false); } { X y = x; y /= y; is(y, id, id, false); } { X y = x; y = y * y; is(y, m * m, mi * mi, false); } { X y = x; y = y / y; is(y, id, id, false); } { X y = x; y = y.inverse(); is(y, mi, m, false); } { X y = x; y = y.apply(y); is(y, m * m, mi * mi, false); }
        }
    }
    static void construct() {
        if (mc::begin("construct", IDX++)) { ctx = "default"; is(X(), Mx<N>(), Mx<N>(), true); }
        lat::tuples<N, R>(N < 4 ? std::vector<R>{-2, -0.5L, 0, 1, 3} : std::vector<R>{-2, 0.5L, 1}, [&](const std::array<R, N>& a) {
            if (not mc::begin("construct", IDX++)) return; mc::state(); V v = v_(a); bool nz = true; for (R x : a) nz = nz and x != 0;
            { ctx = mc::str("translation", lat::show(a)); Mx<N> m, mi; for (int i = 0; i < N; ++i) { m.a[i][N] = a[i]; mi.a[i][N] = -a[i]; } is(translation(v), m, mi, true); if constexpr (N == 2) is(translation(v[0], v[1]), m, mi, true); if constexpr (N == 3) is(translation(v[0], v[1], v[2]), m, mi, true); }
            if (nz) { ctx = mc::str("scale", lat::show(a)); Mx<N> m, mi; for (int i = 0; i < N; ++i) { m.a[i][i] = a[i]; mi.a[i][i] = 1 / a[i]; } is(scale(v), m, mi, true); if constexpr (N == 2) is(scale(v[0], v[1]), m, mi, true); if constexpr (N == 3) is(scale(v[0], v[1], v[2]), m, mi, true); }
        });
        auto mats = [&](auto tag, const std::vector<R>& el) {
            lat::tuples<decltype(tag)::value, R>(el, [&](const std::array<R, decltype(tag)::value>& e) {
                if (not mc::begin("matrix", IDX++)) return; Mx<N> m; size_t k = 0;
                if constexpr (decltype(tag)::value == (size_t)(N * N)) { for (int i = 0; i < N; ++i) for (int j = 0; j < N; ++j) m.a[i][j] = e[k++]; }
                else { for (int i = 0; i < N; ++i) for (int j = 0; j < N; ++j) if ((i + j) % 2 or i == j) { m.a[i][j] = k < e.size() ? e[k++] : R(1); } }
                // skip singular ones (exact: small integers)
                R det = 0; std::array<int, N> pm; std::iota(pm.begin(), pm.end(), 0); do { R t = 1; for (int i = 0; i < N; ++i) { t *= m.a[i][pm[i]]; for (int j = 0; j < i; ++j) if (pm[j] > pm[i]) t = -t; } det += t; } while (std::next_permutation(pm.begin(), pm.end()));
                if (det == 0) return; mc::state(); ctx = mc::str("transformation", lat::show(e));
                Mx<N> mi = invert(m); SimpleMatrix<T, N, N> s; SimpleMatrix<T, N, N, COL_MAJOR> sc; for (int i = 0; i < N; ++i) for (int j = 0; j < N; ++j) s(i, j) = sc(i, j) = (T)m.a[i][j];
                is(transformation(s), m, mi, k % 3 == 0 or N == 2); is(transformation(sc), m, mi, false);
            });
        };
        if constexpr (N == 2) mats(std::integral_constant<size_t, 4>(), {-2, -1, 0, 1, 3});
        if constexpr (N == 3) mats(std::integral_constant<size_t, 9>(), {-1, 0, 2});
        if constexpr (N == 4) mats(std::integral_constant<size_t, 8>(), {-1, 0, 2});
        if constexpr (N == 2) for (R th : {0.0L, 0.3L, 1.57L, 3.0L, -2.0L, 7.0L, 3.14159265L}) if (mc::begin("rotate 2D", IDX++)) { T t = (T)th; ctx = mc::str("rotation ", t); Mx<N> m; R c = std::cos((R)t), s = std::sin((R)t); m.a[0][0] = m.a[1][1] = c; m.a[0][1] = -s; m.a[1][0] = s; Mx<N> mi = m; mi.a[0][1] = s; mi.a[1][0] = -s; is(rotation(t), m, mi, true); }
        if constexpr (N == 3) {
            std::vector<R> angs{0, 0.3L, 1.5L, 3, -2, 7};
            for (R th : angs) for (int ax = 0; ax < 3; ++ax) if (mc::begin("axis rotation", IDX++)) { T t = (T)th; std::array<R, 3> k{}; k[ax] = 1; Mx<N> m = rod(k, t, {0, 0, 0}), mi = rod(k, -(R)t, {0, 0, 0}); ctx = mc::str("rotation_", "xyz"[ax], " ", t); is(ax == 0 ? rotation_x(t) : ax == 1 ? rotation_y(t) : rotation_z(t), m, mi, true);
                SimpleMatrix<T, 3, 3> r = ax == 0 ? rotmat_x(t) : ax == 1 ? rotmat_y(t) : rotmat_z(t); for (int i = 0; i < 3; ++i) for (int j = 0; j < 3; ++j) MC_CHECK(near(r(i, j), m.a[i][j], 1), "rotmat", ctx);
                SimpleMatrix<T, 4, 4> r4; if (ax == 0) rotmat_x(&r4, t); else if (ax == 1) rotmat_y(&r4, t); else rotmat_z(&r4, t); mat("rotmat", r4, m, 1); }
            lat::tuples<3, R>({-1, 0, 0.5L, 2}, [&](const std::array<R, 3>& k) {
                if (not mc::begin("rotation", IDX++)) return; if (k[0] == 0 and k[1] == 0 and k[2] == 0) return; mc::state(); V kv = v_(k); R l = std::sqrt(k[0] * k[0] + k[1] * k[1] + k[2] * k[2]); V ku((T)(k[0] / l), (T)(k[1] / l), (T)(k[2] / l));
                for (R th : angs) {
                    T t = (T)th; Mx<N> m = rod(k, t, {0, 0, 0}), mi = rod(k, -(R)t, {0, 0, 0}); ctx = mc::str("rotation about ", lat::show(k), " by ", t);
                    is(rotation(kv, t), m, mi, true); is(rotation(Quat<T>::rotation_from_axis_angle(kv, t)), m, mi, true);
                    Quat<T> q = Quat<T>::rotation_from_axis_angle(kv, t); is(rotation(q * (T)2.5), m, mi, false); is(rotation(Quat<T>(-q)), m, mi, false);
                    SimpleMatrix<T, 4, 4> r4; rotmat(&r4, ku, t); mat("rotmat", r4, m, 1); rotmat(&r4, ku.x, ku.y, ku.z, t); mat("rotmat", r4, m, 1); rotmat(&r4, q); mat("rotmat", r4, m, 1);
                    lat::tuples<3, R>({-3, 0, 1.5L}, [&](const std::array<R, 3>& c) { V cv = v_(c); Mx<N> mm = rod(k, t, c), mmi = rod(k, -(R)t, c); ctx = mc::str("rotation about ", lat::show(k), " at ", lat::show(c), " by ", t); is(rotation(kv, cv, t), mm, mmi, false); SimpleMatrix<T, 4, 4> a; rotmat(&a, ku, cv, t); mat("rotmat", a, mm, 10); rotmat(&a, ku.x, ku.y, ku.z, cv.x, cv.y, cv.z, t); mat("rotmat", a, mm, 10); });
                }
                // aligning directions: rotation taking unit a to unit b about their common normal
                lat::tuples<3, R>({-1, 0, 0.5L, 2}, [&](const std::array<R, 3>& w) {
                    if (w[0] == 0 and w[1] == 0 and w[2] == 0) return; V b = v_(w).unit(), a = kv.unit(); ctx = mc::str("direction_align ", a, " ", b);
                    R c = (R)a.x * b.x + (R)a.y * b.y + (R)a.z * b.z; bool par = (a ^ b).is_zero(); if (c < -0.999L and not par) return;
                    auto x = direction_align(a, b); Mx<N> m; for (int i = 0; i < 4; ++i) for (int j = 0; j < 4; ++j) m.a[i][j] = x.mat(i, j);
                    A bb{b.x, b.y, b.z}, aa{a.x, a.y, a.z}; vec("direction_align", x * a, bb, 50); Mx<N> mi; for (int i = 0; i < 3; ++i) for (int j = 0; j < 3; ++j) mi.a[i][j] = m.a[j][i]; mat("direction_align orthogonal", x.inv, mi, 50); Mx<N> e = m * mi, id; for (int i = 0; i < 4; ++i) for (int j = 0; j < 4; ++j) if (not near(e.a[i][j], id.a[i][j], 50)) { mc::fail("direction_align orthogonal", mc::str(ctx, ": not a rotation")); return; }
                    R det = 0; for (int i = 0; i < 3; ++i) det += m.a[0][i] * (m.a[1][(i + 1) % 3] * m.a[2][(i + 2) % 3] - m.a[1][(i + 2) % 3] * m.a[2][(i + 1) % 3]); MC_CHECK(near(det, 1, 50), "direction_align orientation", ctx, ": determinant ", det);
                    V n = a ^ b; if (not par) { A nn{n.x, n.y, n.z}; vec("direction_align axis", x * n, nn, 50); }
                    SimpleMatrix<T, 3, 3> s; rotmat_direction_align(&s, a, b); SimpleMatrix<T, 3, 3> s2 = rotmat_direction_align(a, b); SimpleMatrix<T, 4, 4> s4; rotmat_direction_align(&s4, a, b); for (int i = 0; i < 3; ++i) for (int j = 0; j < 3; ++j) MC_CHECK(near(s(i, j), m.a[i][j], 50) and near(s2(i, j), m.a[i][j], 50) and near(s4(i, j), m.a[i][j], 50), "rotmat_direction_align", ctx); mat("rotmat_direction_align", s4, m, 50);
                });
            });
        }
    }
    // embedding in more dimensions keeps the action on the original axes
    template <index_t M> static void resize() {
        if constexpr (M >= N) for (auto& q : gens(true)) for (auto& w : gens(true)) {
            if (not mc::begin("resize", IDX++)) continue; X x = q.x * w.x; Mx<N> m = q.m * w.m, mi = w.mi * q.mi; ctx = mc::str(N, "D -> ", M, "D ", q.name, " after ", w.name);
            auto y = x.template resized<M>(); AffineTransform<float, M> z = x.template resized<M, float>(); Mx<M> e, ei; for (int i = 0; i < N; ++i) { for (int j = 0; j < N; ++j) { e.a[i][j] = m.a[i][j]; ei.a[i][j] = mi.a[i][j]; } e.a[i][M] = m.a[i][N]; ei.a[i][M] = mi.a[i][N]; }
            Chk<M>::ctx = ctx; Chk<M>::is(y, e, ei, true);
            for (int i = 0; i <= M; ++i) for (int j = 0; j <= M; ++j) MC_CHECK(z.mat(i, j) == (float)y.mat(i, j) and z.inv(i, j) == (float)y.inv(i, j), "resize cast", ctx);
        }
        // separable transforms may be shrunk
        if constexpr (M < N) for (R tx : {-1.0L, 0.0L, 2.0L}) for (R sx : {-2.0L, 0.5L, 3.0L}) {
            if (not mc::begin("shrink", IDX++)) continue; V t, s; for (int i = 0; i < N; ++i) { t[i] = (T)(tx + i); s[i] = (T)(sx * (1 << i)); } X x = translation(t) * scale(s); auto y = x.template resized<M>(); Mx<M> e, ei; for (int i = 0; i < M; ++i) { e.a[i][i] = s[i]; e.a[i][M] = t[i]; } ei = invert(e); Chk<M>::ctx = mc::str(N, "D -> ", M, "D"); Chk<M>::is(y, e, ei, true);
        }
    }
};
template <index_t N> std::string Chk<N>::ctx;
void mc_run() {
    IDX = 0; mc::bound("element type", sizeof(T) == 8 ? "double" : "float"); mc::bound("point lattice", "{-1,0,1,2.5}^N (constructors), 3 points (compositions)");
    if (mc::part("make")) { Chk<2>::construct(); Chk<3>::construct(); Chk<4>::construct(); Chk<5>::construct(); Chk<2>::resize<3>(); Chk<2>::resize<4>(); Chk<3>::resize<4>(); Chk<3>::resize<2>(); Chk<4>::resize<3>(); Chk<4>::resize<2>(); Chk<3>::resize<3>(); }
    if (mc::part("compose")) { Chk<2>::compose(); Chk<3>::compose(); Chk<4>::compose(); Chk<5>::compose(); }
}
