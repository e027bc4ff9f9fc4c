// C06: grid traversal.
#include "lat.h"
#include <geomc/linalg/Vec.h>
#include <geomc/shape/Rect.h>
#include <geomc/shape/GridIterator.h>
using namespace geom;

template <typename T, index_t N>
static std::array<long, N> arr(const typename PointType<T,N>::point_t& p) {
    std::array<long, N> a;
    for (index_t i = 0; i < N; ++i) a[i] = (long) PointType<T,N>::iterator(p)[i];
    return a;
}

template <typename T, index_t N, ArrayOrder O>
void box(const char* grp, uint64_t idx, std::array<long,N> lo, std::array<long,N> sz) {
    if (!mc::begin(grp, idx)) return;
    typedef GridIterator<T,N,O> It;
    typedef typename PointType<T,N>::point_t P;
    P plo((T)0), phi((T)0), phx((T)0);
    bool empty = false;
    size_t vol = 1;
    for (index_t i = 0; i < N; ++i) {
        PointType<T,N>::iterator(plo)[i] = (T) lo[i];
        PointType<T,N>::iterator(phi)[i] = (T) (lo[i] + sz[i] - 1);
        PointType<T,N>::iterator(phx)[i] = (T) (lo[i] + sz[i]);
        if (sz[i] <= 0) empty = true; else vol *= sz[i];
    }
    std::string what = mc::str("lo=", lat::show(lo), " size=", lat::show(sz), " order=", O == ARRAYORDER_FIRST_DIM_CONSECUTIVE ? "first" : "last");
    mc::note(what);
    // reference: explicit list of points
    std::vector<std::array<long,N>> ref;
    if (!empty) for (size_t k = 0; k < vol; ++k) {
        std::array<long,N> a; size_t r = k;
        for (index_t j = 0; j < N; ++j) {
            index_t i = (O == ARRAYORDER_FIRST_DIM_CONSECUTIVE) ? j : N - 1 - j;
            a[i] = lo[i] + (long)(r % sz[i]); r /= sz[i];
        }
        ref.push_back(a);
    }
    long n = ref.size();
    Rect<T,N> r(plo, phi);
    for (int ctor = 0; ctor < 2; ++ctor) {
        It it = ctor ? It(plo, phx) : It(r);
        It b = it.begin(), e = it.end();
        MC_CHECK(n == 0 or it == b, "initial position", what);
        MC_CHECK((b == e) == (n == 0), "empty iff begin==end", what);
        MC_CHECK((e - b) == n, "end - begin", what, " got ", (long)(e - b), " want ", n);
        // forward
        long k = 0;
        It i = b;
        for (; i != e and k <= n; ++i, ++k) {
            mc::step();
            if (k >= n or arr<T,N>(*i) != ref[k]) { mc::fail("forward order", mc::str(what, " step ", k)); break; }
        }
        MC_CHECK(k == n, "forward count", what, " visited ", k, " of ", n);
        It pi = b;
        for (long q = 0; q < n; ++q) {
            It old = pi++;
            MC_CHECK((arr<T,N>(*old) == ref[q]), "post-increment", what);
        }
        MC_CHECK(pi == e, "post-increment end", what);
        // backward
        It j = e;
        for (long q = n - 1; q >= 0; --q) {
            --j; mc::step();
            if (arr<T,N>(*j) != ref[q]) { mc::fail("reverse order", mc::str(what, " step ", q, " got ", lat::show(arr<T,N>(*j)))); break; }
        }
        MC_CHECK(n == 0 or j == b, "reverse reaches begin", what);
    }
    // random access between all ordered pairs of positions (including end)
    It it(r);
    It b = it.begin(), e = it.end();
    for (long x = 0; x <= n; ++x) {
        if (n == 0) break;
        It ix = b; for (long q = 0; q < x; ++q) ++ix;
        if constexpr (N > 1) if (x < n) {
            P p((T)0); for (index_t d = 0; d < N; ++d) PointType<T,N>::iterator(p)[d] = (T) ref[x][d];
            It c(r, p);
            MC_CHECK((c == ix and arr<T,N>(c.pt) == ref[x] and arr<T,N>(*c) == ref[x]), "construct at point", what);
            MC_CHECK(c.begin() == b and c.end() == e, "begin/end from anywhere", what);
        }
        It iy = b;
        for (long y = 0; y <= n; ++y) {
            mc::step();
            It s = ix; s += (y - x);
            It t = ix + (y - x);
            It u = ix; u -= (x - y);
            It v = ix - (x - y);
            bool ok = s == iy and t == iy and u == iy and v == iy;
            if (y < n) ok = ok and arr<T,N>(*s) == ref[y] and arr<T,N>(*t) == ref[y] and arr<T,N>(*u) == ref[y] and arr<T,N>(*v) == ref[y];
            if (!ok) mc::fail("jump", mc::str(what, " from ", x, " to ", y, " got ", lat::show(arr<T,N>(s.pt))));
            if (y < n) { P br = ix[y - x]; MC_CHECK((arr<T,N>(br) == ref[y]), "operator[]", what, " from ", x, " to ", y); }
            MC_CHECK((iy - ix) == y - x, "distance", what, " ", x, "->", y, " got ", (long)(iy - ix));
            MC_CHECK((ix == iy) == (x == y) and (ix != iy) == (x != y), "equality", what);
            MC_CHECK((ix < iy) == (x < y) and (ix <= iy) == (x <= y) and (ix > iy) == (x > y) and (ix >= iy) == (x >= y), "ordering", what);
            ++iy;
        }
    }
    // assignment, also across regions; standard algorithms over the traversal
    for (long x = 0; x < n; ++x) {
        P olo((T)-1), ohi((T)2); It o(Rect<T,N>(olo, ohi)); o = b + x;
        MC_CHECK((o == b + x and arr<T,N>(*o) == ref[x] and o - b == x and e - o == n - x), "assigned iterator", what, " position ", x);
        It a = b, z = o; std::swap(a, z);
        MC_CHECK(a == o and z == b, "swapped iterators", what, " position ", x);
        auto want = ref[x];
        It f = std::find_if(b, e, [&](const P& q) { return arr<T,N>(q) == want; });
        MC_CHECK(f - b == x, "find", what, " found ", (long)(f - b), " want ", x);
        It l = std::partition_point(b, e, [&](const P& q) { auto c = arr<T,N>(q); return std::find(ref.begin(), ref.begin() + x, c) != ref.begin() + x; });
        MC_CHECK(l - b == x, "partition point", what, " at ", (long)(l - b), " want ", x);
        mc::step(4);
    }
    MC_CHECK(It::order == O, "order constant", what);
    mc::state(); mc::trace();
    mc::outcome(n == 0 ? "empty" : n == 1 ? "single point" : "several points");
    if (idx == 77) mc::sample(what);
}

template <typename T, index_t N>
void all(const char* g1, const char* g2, std::vector<long> los, std::vector<long> sizes) {
    uint64_t idx = 0;
    lat::tuples<N>(los, [&](auto lo) {
        lat::tuples<N>(sizes, [&](auto sz) {
            box<T,N,ARRAYORDER_FIRST_DIM_CONSECUTIVE>(g1, idx, lo, sz);
            box<T,N,ARRAYORDER_LAST_DIM_CONSECUTIVE>(g2, idx, lo, sz);
            ++idx;
        });
    });
    mc::bound(mc::str("N=", N), mc::str("corners in ", lat::show(los), ", sizes in ", lat::show(sizes), ", every pair of positions"));
}

void mc_run() {
    bool t = mc::thorough();
    typedef std::vector<long> V;
#if MCP == 1
    all<int,1>("int1first", "int1last", t ? V{-5,-4,-3,-2,-1,0,1,2,3,7} : V{-3,-2,-1,0,1,4}, t ? V{-1,0,1,2,3,4,5,6,7,8,9} : V{-1,0,1,2,3,4,5});
    all<int,2>("int2first", "int2last", t ? V{-3,-2,-1,0,1,4} : V{-3,-2,-1,0,2}, t ? V{-1,0,1,2,3,4,5} : V{-1,0,1,2,3,4});
    all<index_t,2>("idx2first", "idx2last", V{-3,0,2}, V{-1,0,1,2,3,4});
#elif MCP == 2
    all<int,3>("int3first", "int3last", t ? V{-3,-1,0,2} : V{-2,0,1}, t ? V{-1,0,1,2,3,4} : V{-1,0,1,2,3});
#else
    all<int,4>("int4first", "int4last", t ? V{-2,0,1} : V{-2,1}, t ? V{0,1,2,3} : V{0,1,2});
    all<int,5>("int5first", "int5last", V{-2,1}, t ? V{0,1,2} : V{1,2});
    all<index_t,3>("idx3first", "idx3last", V{-1,2}, V{0,1,2,3});
#endif
}
