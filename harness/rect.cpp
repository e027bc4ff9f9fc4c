// C17: axis-aligned boxes against the point sets they denote.
#include "mc.h"
#include "lat.h"
#include <geomc/linalg/Vec.h>
#include <geomc/shape/Rect.h>
using namespace geom;
static uint64_t IDX;
#ifndef ET
#define ET double
#endif
typedef ET T;
static constexpr bool INTEGRAL = std::is_integral<T>::value;
template <index_t N> struct Box {
    typedef Rect<T, N> B; typedef typename B::point_t P; typedef PointType<T, N> PT; typedef std::array<double, N> A;
    static T& at(P& p, index_t i) { return PT::iterator(p)[i]; }
    static T get(const P& p, index_t i) { return PT::iterator(p)[i]; }
    static P pt(const A& a) { P p((T)0); for (index_t i = 0; i < N; ++i) at(p, i) = (T)a[i]; return p; }
    static std::string sh(const B& b) { std::string s; for (index_t i = 0; i < N; ++i) s += mc::str("[", get(b.lo, i), ",", get(b.hi, i), "]"); return s; }
    static std::string shp(const P& p) { std::string s = "("; for (index_t i = 0; i < N; ++i) s += mc::str(i ? "," : "", get(p, i)); return s + ")"; }
    static bool in(const B& b, const P& p) { for (index_t i = 0; i < N; ++i) if (not (get(b.lo, i) <= get(p, i) and get(p, i) <= get(b.hi, i))) return false; return true; }
    static bool emp(const B& b) { for (index_t i = 0; i < N; ++i) if (get(b.lo, i) > get(b.hi, i)) return true; return false; }
    static bool same(const B& a, const B& b) { for (index_t i = 0; i < N; ++i) if (get(a.lo, i) != get(b.lo, i) or get(a.hi, i) != get(b.hi, i)) return false; return true; }
    static bool eqp(const P& a, const P& b, double e = 0) { for (index_t i = 0; i < N; ++i) if (std::abs((double)get(a, i) - (double)get(b, i)) > e) return false; return true; }
    static bool canonical(const B& b) { for (index_t i = 0; i < N; ++i) if (std::abs((double)get(b.lo, i)) > 1e6) return true; return false; }
    static double E() { return sizeof(T) == 4 ? 1e-5 : 1e-12; }
    static void one(const B& b, const std::vector<P>& pts) {
        std::string w = sh(b); const bool e = emp(b), big = canonical(b); mc::note(w);
        MC_CHECK(b.is_empty() == e, "is_empty", w); mc::step();
        MC_CHECK(b == b and not (b != b), "equality", w);
        P nil((T)0); 
        for (const P& p : pts) {
            mc::step(); bool c = in(b, p);
            MC_CHECK(b.contains(p) == c, "contains point", w, " ", shp(p)); MC_CHECK(B::contains(b.lo, b.hi, p) == c, "contains point", "static ", w, " ", shp(p));
            B u = b | p; MC_CHECK(in(u, p), "point union", w, " ", shp(p), " -> ", sh(u)); B v = b; B& r = (v |= p); MC_CHECK(same(u, v) and &r == &v, "point union", w, " |= ", shp(p));
            if (not e) { B h; for (index_t i = 0; i < N; ++i) { at(h.lo, i) = std::min(get(b.lo, i), get(p, i)); at(h.hi, i) = std::max(get(b.hi, i), get(p, i)); } MC_CHECK(same(u, h), "point union", w, " | ", shp(p), " = ", sh(u)); }
            if (not big) {
                B s = b + p, d = b - p, t = p + b; B s2 = b, d2 = b; s2 += p; d2 -= p;
                B rs = b, rd = b; for (index_t i = 0; i < N; ++i) { at(rs.lo, i) += get(p, i); at(rs.hi, i) += get(p, i); at(rd.lo, i) -= get(p, i); at(rd.hi, i) -= get(p, i); }
                MC_CHECK(same(s, rs) and same(t, rs) and same(s2, rs), "translate", w, " + ", shp(p), " = ", sh(s)); MC_CHECK(same(d, rd) and same(d2, rd), "translate", w, " - ", shp(p), " = ", sh(d));
            }
            if (not e) {
                P c1 = b.clip(p), ref = p; double d2 = 0; for (index_t i = 0; i < N; ++i) { at(ref, i) = std::min(std::max(get(p, i), get(b.lo, i)), get(b.hi, i)); double q = (double)get(ref, i) - get(p, i); d2 += q * q; }
                MC_CHECK(eqp(c1, ref), "clip", w, " ", shp(p), " -> ", shp(c1)); MC_CHECK(std::abs(b.dist2(p) - d2) <= E(), "dist2", w, " ", shp(p), " -> ", b.dist2(p));
                // scale by p (element by element)
                B m = b * p, m2 = b, rm = b; m2 *= p; bool nz = true; for (index_t i = 0; i < N; ++i) { T x = get(b.lo, i) * get(p, i), y = get(b.hi, i) * get(p, i); at(rm.lo, i) = std::min(x, y); at(rm.hi, i) = std::max(x, y); nz = nz and get(p, i) != 0; }
                MC_CHECK(same(m, rm) and same(m2, rm), "scale", w, " * ", shp(p), " = ", sh(m));
                if (nz) { B q = b / p, q2 = b, rq = b; q2 /= p; for (index_t i = 0; i < N; ++i) { T x = get(b.lo, i) / get(p, i), y = get(b.hi, i) / get(p, i); at(rq.lo, i) = std::min(x, y); at(rq.hi, i) = std::max(x, y); } MC_CHECK(eqp(q.lo, rq.lo, E()) and eqp(q.hi, rq.hi, E()) and same(q2, q), "scale", w, " / ", shp(p), " = ", sh(q)); }
                B g = b.dilated(p); bool gok = true; for (index_t i = 0; i < N; ++i) gok = gok and get(g.lo, i) == get(b.lo, i) - get(p, i) and get(g.hi, i) == get(b.hi, i) + get(p, i); MC_CHECK(gok, "dilated", w, " by ", shp(p), " = ", sh(g));
                // operands inside the box being changed
                for (int k = 0; k < 2; ++k) { const P own = k ? b.hi : b.lo; auto ref_ = [&](B& x) -> P& { return k ? x.hi : x.lo; }; bool nz2 = true; for (index_t i = 0; i < N; ++i) nz2 = nz2 and get(own, i) != 0;
                    auto self = [&](const char* op, auto f) { B x = b, y = b; f(x, ref_(x)); P o = own; f(y, o); MC_CHECK(same(x, y), "own corner", w, " ", op, k ? " hi" : " lo", " = ", sh(x), " not ", sh(y)); };
                    self("+=", [](B& x, P& q) { x += q; }); self("-=", [](B& x, P& q) { x -= q; }); self("*=", [](B& x, P& q) { x *= q; }); if (nz2) self("/=", [](B& x, P& q) { x /= q; }); self("|=", [](B& x, P& q) { x |= q; }); }
                { B x = b; x |= x; MC_CHECK(same(x, b), "union with itself", w); x &= x; MC_CHECK(same(x, b), "intersection with itself", w); }
                bool pos = true; for (index_t i = 0; i < N; ++i) pos = pos and get(p, i) > 0;
                B k = b.centered_on(p); MC_CHECK(eqp(k.dimensions(), b.dimensions(), E()) and eqp(k.center(), p, E()), "centered_on", w, " at ", shp(p), " = ", sh(k));
                if (pos) { B z = b; z.set_dimensions(p); MC_CHECK(eqp(z.dimensions(), p, E()) and eqp(z.center(), b.center(), E()), "set_dimensions", w, " to ", shp(p), " = ", sh(z)); B f = B::from_center(b.lo, p); MC_CHECK(eqp(f.dimensions(), p, E()) and eqp(f.center(), b.lo, E()), "from_center", shp(b.lo), " ", shp(p), " = ", sh(f)); B h = B::from_corner(b.lo, p); MC_CHECK(eqp(h.dimensions(), p, E()) and eqp(h.lo, b.lo, E()), "from_corner", shp(b.lo), " ", shp(p), " = ", sh(h)); B y = B::from_size(p); MC_CHECK(eqp(y.dimensions(), p, E()) and eqp(y.center(), nil, E()), "from_size", shp(p), " = ", sh(y)); }
                if constexpr (not INTEGRAL) {
                    // reals: negative extents denote the same box
                    B f = B::from_center(b.lo, p); P q = p; for (index_t i = 0; i < N; ++i) at(q, i) = std::abs(get(p, i)); MC_CHECK(eqp(f.dimensions(), q, E()) and eqp(f.center(), b.lo, E()), "from_center", shp(b.lo), " ", shp(p), " = ", sh(f));
                    B h = B::from_corner(b.lo, p); bool ok = true; for (index_t i = 0; i < N; ++i) { T x = get(b.lo, i), y = x + get(p, i); ok = ok and get(h.lo, i) == std::min(x, y) and get(h.hi, i) == std::max(x, y); } MC_CHECK(ok, "from_corner", shp(b.lo), " ", shp(p), " = ", sh(h));
                    P m1 = b.remap(p); bool rk = true, nd = true; for (index_t i = 0; i < N; ++i) { double s = get(p, i), v = (1 - s) * get(b.lo, i) + s * get(b.hi, i); rk = rk and std::abs(v - get(m1, i)) <= 20 * E(); nd = nd and get(b.lo, i) != get(b.hi, i); } MC_CHECK(rk, "remap", w, " ", shp(p), " -> ", shp(m1));
                    if (nd) { MC_CHECK(eqp(b.unmap(m1), p, 50 * E()), "unmap", w, " ", shp(p)); MC_CHECK(eqp(b.remap(b.unmap(p)), p, 50 * E()), "unmap", w, " ", shp(p)); }
                }
                P s = b.convex_support(p); double best = -1e300, got = 0; for (int c = 0; c < (1 << N); ++c) { double d = 0; for (index_t i = 0; i < N; ++i) d += (double)get(p, i) * get((c >> i & 1) ? b.hi : b.lo, i); best = std::max(best, d); } for (index_t i = 0; i < N; ++i) got += (double)get(p, i) * get(s, i);
                MC_CHECK(in(b, s) and std::abs(got - best) <= E(), "support", w, " ", shp(p), " -> ", shp(s));
            }
        }
        if (not big) {
            double vol = 1; for (index_t i = 0; i < N; ++i) vol *= std::max(0.0, (double)get(b.hi, i) - get(b.lo, i) + (INTEGRAL ? 1 : 0));
            MC_CHECK(std::abs(b.volume() - vol) <= E() * 10, "volume", w, " ", b.volume()); MC_CHECK(std::abs(b.length() - std::pow(vol, 1. / N)) <= 1e-4, "length", w, " ", b.length());
            P dm = b.dimensions(), ce = b.center(); for (index_t i = 0; i < N; ++i) { MC_CHECK(get(dm, i) == get(b.hi, i) - get(b.lo, i) + (INTEGRAL ? 1 : 0), "dimensions", w); if (not e) MC_CHECK(INTEGRAL ? (get(ce, i) == get(b.lo, i) + (get(b.hi, i) - get(b.lo, i) + 1) / 2) : (get(ce, i) == (get(b.lo, i) + get(b.hi, i)) / 2), "center", w, " ", shp(ce)); }
            if (not e) MC_CHECK(same(B::from_center(ce, dm), b), "center round trip", w); 
            B ab = b.abs(), sc = B::spanning_corners(b.lo, b.hi), st = b; st.set_corners(b.hi, b.lo); B h; for (index_t i = 0; i < N; ++i) { at(h.lo, i) = std::min(get(b.lo, i), get(b.hi, i)); at(h.hi, i) = std::max(get(b.lo, i), get(b.hi, i)); } MC_CHECK(same(ab, h) and same(sc, h) and same(st, h), "abs", w, " ", sh(ab), sh(sc), sh(st));
            MC_CHECK(same(b.bounds(), b), "bounds", w);
            Rect<double, N> cv = b; bool ok = true; for (index_t i = 0; i < N; ++i) ok = ok and PointType<double, N>::iterator(cv.lo)[i] == get(b.lo, i) and PointType<double, N>::iterator(cv.hi)[i] == get(b.hi, i); MC_CHECK(ok, "cast", w);
        }
        for (index_t i = 0; i < N; ++i) { Rect<T, 1> x = b.axis(i); MC_CHECK(x.lo == get(b.lo, i) and x.hi == get(b.hi, i), "axis", w, " ", i); }
        if constexpr (N == 3) { Rect<T, 2> x = b(2, 0); MC_CHECK(x.lo[0] == b.lo[2] and x.lo[1] == b.lo[0] and x.hi[0] == b.hi[2] and x.hi[1] == b.hi[0], "swizzle", w); }
        if constexpr (N == 2) { Rect<T, 3> x = b(1, 0, 1); MC_CHECK(x.lo[0] == b.lo[1] and x.lo[1] == b.lo[0] and x.lo[2] == b.lo[1] and x.hi[0] == b.hi[1] and x.hi[1] == b.hi[0], "swizzle", w); }
        B pb(b.lo); MC_CHECK(eqp(pb.lo, b.lo) and eqp(pb.hi, b.lo), "point box", w);
        B def; MC_CHECK(def.is_empty() and B::empty.is_empty() and not B::full.is_empty() and B::full.contains(b.lo) and B::full.contains(b), "constants", w); MC_CHECK(e or (same(def | b, b) and same(b | def, b)), "identity", w, " | empty = ", sh(def | b)); MC_CHECK(same(B::full & b, b), "identity", w, " & full");
        MC_CHECK(b.contains(def) and (def.contains(b) == e), "contains box", w, " and the empty box");
        B ui = B::unit_interval, si = B::signed_unit_interval; for (index_t i = 0; i < N; ++i) MC_CHECK(get(ui.lo, i) == 0 and get(ui.hi, i) == 1 and get(si.lo, i) == (T)-1 and get(si.hi, i) == 1, "constants", "unit interval");
        std::vector<P> seq = {b.lo, b.hi, nil}; B fs = B::from_point_sequence(seq.begin(), seq.end()); bool ok = true; for (auto& p : seq) ok = ok and in(fs, p); for (index_t i = 0; i < N; ++i) ok = ok and get(fs.lo, i) == std::min({get(b.lo, i), get(b.hi, i), (T)0}) and get(fs.hi, i) == std::max({get(b.lo, i), get(b.hi, i), (T)0}); MC_CHECK(ok, "from points", w, " ", sh(fs));
        B fe = B::from_point_sequence(seq.begin(), seq.begin()); MC_CHECK(fe.is_empty(), "from points", "no points: ", sh(fe));
    }
    static void two(const B& a, const B& b, const std::vector<P>& pts) {
        std::string w = sh(a) + " " + sh(b); mc::note(w); mc::step(8);
        const bool ea = emp(a), eb = emp(b), big = canonical(a) or canonical(b);
        bool meet = not ea and not eb; for (index_t i = 0; i < N; ++i) meet = meet and std::max(get(a.lo, i), get(b.lo, i)) <= std::min(get(a.hi, i), get(b.hi, i));
        bool sub = eb; if (not eb) { sub = true; for (index_t i = 0; i < N; ++i) sub = sub and get(a.lo, i) <= get(b.lo, i) and get(b.hi, i) <= get(a.hi, i); }
        MC_CHECK(a.intersects(b) == meet, "intersects", w, " ", a.intersects(b)); MC_CHECK(a.contains(b) == sub, "contains box", w, " ", a.contains(b));
        MC_CHECK((a == b) == same(a, b) and (a != b) == not same(a, b), "equality", w);
        B u = a | b, n = a & b, u2 = a, n2 = a; B& ru = (u2 |= b); B& rn = (n2 &= b);
        MC_CHECK(same(u, u2) and same(n, n2) and &ru == &u2 and &rn == &n2, "assigning operators", w, " ", sh(u2), sh(n2));
        MC_CHECK(emp(n) == not meet, "intersection", w, " = ", sh(n)); 
        if (not ea and not eb) { bool ok = true; for (index_t i = 0; i < N; ++i) ok = ok and get(u.lo, i) == std::min(get(a.lo, i), get(b.lo, i)) and get(u.hi, i) == std::max(get(a.hi, i), get(b.hi, i)); MC_CHECK(ok, "union", w, " = ", sh(u)); }
        for (const P& p : pts) { bool ia = in(a, p), ib = in(b, p); if (in(n, p) != (ia and ib)) mc::fail("intersection", mc::str(w, " = ", sh(n), " at ", shp(p))); if ((ia or ib) and not in(u, p)) mc::fail("union", mc::str(w, " = ", sh(u), " misses ", shp(p))); }
        if (not big) {
            B m = a.minkowski_sum(b); if (not ea and not eb) { bool ok = true; for (index_t i = 0; i < N; ++i) ok = ok and get(m.lo, i) == get(a.lo, i) + get(b.lo, i) and get(m.hi, i) == get(a.hi, i) + get(b.hi, i); MC_CHECK(ok, "minkowski_sum", w, " = ", sh(m)); }
            if constexpr (not INTEGRAL) if (not ea and not eb) {
                auto [v, ov] = a.contact_vector(b); MC_CHECK(ov == meet, "contact flag", w);
                double best = 1e300, gap = 0, got = 0; for (index_t i = 0; i < N; ++i) { double d0 = get(b.lo, i) - get(a.hi, i), d1 = get(b.hi, i) - get(a.lo, i); best = std::min({best, std::abs(d0), std::abs(d1)}); double g = std::max({d0, -d1, 0.0}); gap += g * g; got += (double)get(v, i) * get(v, i); }
                MC_CHECK(std::abs(got - (meet ? best * best : gap)) <= 1e-9, "contact length", w, " ", shp(v));
                B mv = a + v; double area = 1; bool touch = true; for (index_t i = 0; i < N; ++i) { double o = std::min(get(mv.hi, i), get(b.hi, i)) - std::max(get(mv.lo, i), get(b.lo, i)); touch = touch and o >= -1e-9; area = std::min(area, o); } MC_CHECK(touch and area <= 1e-9, "contact", w, " moved by ", shp(v), " = ", sh(mv));
            }
            if constexpr (not INTEGRAL) if (not eb) { // the fitted rect keeps the aspect of this one, also of an inverted one (nothing is claimed about its signs)
                bool nd = true, any = false; double mr = 0; for (index_t i = 0; i < N; ++i) { double x = get(a.hi, i) - get(a.lo, i), y = get(b.hi, i) - get(b.lo, i); if (x != 0) { mr = std::max(mr, std::abs(y / x)); any = true; } else nd = false; }
                B f = a.fitted_to(b); bool ok = true; for (index_t i = 0; i < N; ++i) { double x = get(a.hi, i) - get(a.lo, i), z = get(f.hi, i) - get(f.lo, i); ok = ok and std::abs(std::abs(z) - std::abs(x) * mr) <= 1e-6; } MC_CHECK(ok and eqp(f.center(), b.center(), 1e-6), "fitted_to", w, " = ", sh(f)); if (nd and any) { bool c = true; for (index_t i = 0; i < N; ++i) c = c and std::min(get(f.lo, i), get(f.hi, i)) <= get(b.lo, i) + 1e-6 and std::max(get(f.hi, i), get(f.lo, i)) >= get(b.hi, i) - 1e-6; MC_CHECK(c, "fitted_to", w, " = ", sh(f), " does not cover its target"); }
            }
            if (not ea and not eb) { B c = a, d = b; B r = c - d; bool ok = same(c, a) and same(d, b); for (const P& p : pts) { bool inb = true; for (index_t i = 0; i < N; ++i) inb = inb and get(b.lo, i) < get(p, i) and get(p, i) < get(b.hi, i); ok = ok and not (in(r, p) and (not in(a, p) or inb)); } if (not ok) mc::fail("operator-(Rect)", mc::str(w, " = ", sh(r), " and the left operand is now ", sh(c))); }
        }
        if constexpr (N <= 2) { Rect<T, 2 * N> q = a * b; bool ok = true; for (index_t i = 0; i < N; ++i) ok = ok and q.lo[i] == get(a.lo, i) and q.hi[i] == get(a.hi, i) and q.lo[N + i] == get(b.lo, i) and q.hi[N + i] == get(b.hi, i); MC_CHECK(ok, "product", w); }
    }
    static void run(const char* grp, const std::vector<std::array<double, 2>>& iv, const std::vector<double>& pv, bool canon) {
        std::vector<size_t> ids; for (size_t i = 0; i < iv.size(); ++i) ids.push_back(i);
        std::vector<B> bs; std::vector<P> pts;
        lat::tuples<N, size_t>(ids, [&](const std::array<size_t, N>& t) { B b; for (index_t i = 0; i < N; ++i) { at(b.lo, i) = (T)iv[t[i]][0]; at(b.hi, i) = (T)iv[t[i]][1]; } bs.push_back(b); });
        if (canon) { bs.push_back(B()); bs.push_back(B::empty); B h = bs[0]; at(h.lo, 0) = std::numeric_limits<T>::max(); at(h.hi, 0) = std::numeric_limits<T>::lowest(); bs.push_back(h); }
        lat::tuples<N, double>(pv, [&](const A& a) { pts.push_back(pt(a)); });
        for (size_t i = 0; i < bs.size(); ++i) { if (not mc::begin(grp, IDX++)) continue; mc::state(); mc::trace(bs.size() + 1); one(bs[i], pts); for (size_t j = 0; j < bs.size(); ++j) two(bs[i], bs[j], pts); }
    }
};
void mc_run() {
    IDX = 0; const bool th = mc::thorough();
    std::vector<std::array<double, 2>> full, some, few;
    for (int lo = -1; lo < 4; ++lo) for (int hi = -2; hi < 4; ++hi) { full.push_back({(double)lo, (double)hi}); if (lo <= 2 and hi >= (th ? -1 : 0) and hi <= 2) some.push_back({(double)lo, (double)hi}); }
    few = {{-1, -1}, {-1, 1}, {0, 1}, {1, 0}, {0, 0}, {1, 2}}; if (th) few.insert(few.end(), {{0, 2}, {2, -1}});
    std::vector<double> p1, p2, p3; for (double x = -2.5; x <= 4; x += 0.5) if (not INTEGRAL or x == std::floor(x)) { p1.push_back(x); if (x >= -1.5 and x <= 3) p2.push_back(x); } p3 = INTEGRAL ? std::vector<double>{-2, -1, 0, 1, 2} : std::vector<double>{-1.5, -1, 0, 0.5, 1.5};
    Box<1>::run("1d", full, p1, true); Box<2>::run("2d", some, p2, true); Box<3>::run("3d", few, p3, true); { std::vector<std::array<double, 2>> tiny{{-1, 1}, {0, 1}, {1, 0}}; Box<4>::run("4d", tiny, INTEGRAL ? std::vector<double>{-1, 0, 2} : std::vector<double>{-1, 0.5, 1.5}, true); }
    mc::bound("boxes", "all pairs of boxes: 1D corners -2..3, 2D -1..2, 3D six intervals per axis, inverted and canonical empty boxes included"); mc::bound("points", "integer or half-integer lattice around them");
    mc::sample("[0,1][1,0] (empty) against [-1,1][0,0]: no overlap, contained, intersection empty at every lattice point");
}
