// G06: selections and roll; G07: reconstruction; G08: refinement map; G09: map to a regular mesh
#include "world.h"

using namespace vh;
namespace G = GooseFEM::Mesh::Quad4;

// Geometry of a layered mesh taken from its coordinates and connectivity only.
struct Layered {
    std::vector<size_t> hx, hy, n, per, start, y0; // per row: block width/height, blocks, elements per block, first element, bottom
    size_t width = 0, height = 0, nelem = 0;
    A2 coor;
    S2 conn;

    Layered(const G::FineLayer& m, double h)
    {
        coor = m.coor();
        conn = m.conn();
        auto lx = [&](size_t e, size_t a) { return std::lround(coor(conn(e, a), 0) / h); };
        auto ly = [&](size_t e, size_t a) { return std::lround(coor(conn(e, a), 1) / h); };
        size_t e = 0;
        size_t y = 0;
        for (size_t i = 0; i < coor.shape(0); ++i) {
            width = std::max<size_t>(width, static_cast<size_t>(std::lround(coor(i, 0) / h)));
            height = std::max<size_t>(height, static_cast<size_t>(std::lround(coor(i, 1) / h)));
        }
        nelem = conn.shape(0);
        auto bounds = [&](size_t el, long& x0, long& x1, long& b0, long& b1) {
            x0 = b0 = 1l << 40;
            x1 = b1 = -1;
            for (size_t a = 0; a < 4; ++a) {
                x0 = std::min(x0, lx(el, a));
                x1 = std::max(x1, lx(el, a));
                b0 = std::min(b0, ly(el, a));
                b1 = std::max(b1, ly(el, a));
            }
        };
        while (e < nelem) {
            long x0, x1, b0, b1;
            bounds(e, x0, x1, b0, b1);
            // a rectangular block or a transition block of four elements
            bool rect = true;
            for (size_t a = 0; a < 4; ++a) {
                rect = rect && (lx(e, a) == x0 || lx(e, a) == x1) && (ly(e, a) == b0 || ly(e, a) == b1);
            }
            size_t p = rect ? 1 : 4;
            for (size_t k = 0; k < p; ++k) {
                long c0, c1, d0, d1;
                bounds(e + k, c0, c1, d0, d1);
                x0 = std::min(x0, c0);
                x1 = std::max(x1, c1);
                b0 = std::min(b0, d0);
                b1 = std::max(b1, d1);
            }
            hx.push_back(static_cast<size_t>(x1 - x0));
            hy.push_back(static_cast<size_t>(b1 - b0));
            per.push_back(p);
            n.push_back(width / hx.back());
            start.push_back(e);
            y0.push_back(y);
            y += hy.back();
            e += n.back() * p;
        }
    }

    size_t rows() const
    {
        return hx.size();
    }

    // elements of the block at column "j" of row "i"
    void block(size_t i, size_t j, std::vector<size_t>& r) const
    {
        for (size_t k = 0; k < per[i]; ++k) {
            r.push_back(start[i] + j * per[i] + k);
        }
    }

    // fine rows [r0, r1), fine columns [c0, c1), the columns rounded down to the coarsest of the outer rows
    std::vector<size_t> select(size_t r0, size_t r1, size_t c0, size_t c1) const
    {
        std::vector<size_t> r;
        if (r0 == r1 || c0 == c1) {
            return r;
        }
        std::vector<size_t> in;
        for (size_t i = 0; i < rows(); ++i) {
            if (y0[i] < r1 && y0[i] + hy[i] > r0) {
                in.push_back(i);
            }
        }
        size_t w = std::max(hx[in.front()], hx[in.back()]);
        c0 -= c0 % w;
        c1 -= c1 % w;
        for (auto i : in) {
            for (size_t j = 0; j < n[i]; ++j) {
                if (j * hx[i] >= c0 && (j + 1) * hx[i] <= c1) {
                    block(i, j, r);
                }
            }
        }
        return r;
    }

    // box of "size" fine elements to all sides of column "c" of the middle row, rounded outwards to the coarsest
    // selected row, periodic in the x-direction
    std::vector<size_t> around(size_t c, size_t size, size_t left, size_t right, bool middle) const
    {
        size_t mid = (height - 1) / 2;
        size_t lo = mid >= size ? mid - size : 0, hi = std::min(height, mid + size + 1);
        if (middle) {
            lo = mid;
            hi = mid + 1;
        }
        std::vector<size_t> in;
        size_t w = 1;
        for (size_t i = 0; i < rows(); ++i) {
            if (y0[i] < hi && y0[i] + hy[i] > lo) {
                in.push_back(i);
                w = std::max(w, hx[i]);
            }
        }
        std::vector<bool> col(width, false);
        for (size_t k = 0; k < std::min(width, left + right + 1); ++k) {
            size_t x = (c + width * (left / width + 1) - left + k) % width;
            x -= x % w;
            for (size_t q = 0; q < w; ++q) {
                col[x + q] = true;
            }
        }
        std::vector<size_t> r;
        for (auto i : in) {
            for (size_t j = 0; j < n[i]; ++j) {
                if (col[j * hx[i]]) {
                    block(i, j, r);
                }
            }
        }
        return r;
    }
};

template <class A>
std::vector<size_t> list(const A& a)
{
    return std::vector<size_t>(a.begin(), a.end());
}

template <class A>
std::vector<size_t> sorted(const A& a)
{
    auto r = list(a);
    std::sort(r.begin(), r.end());
    return r;
}

// distinct layered meshes: f(nx, ny, nfine, name)
template <class F>
void layered(size_t mx, size_t my, const std::vector<size_t>& nfs, F&& f)
{
    // also a width with three levels of coarsening
    for (size_t i = 1; i <= mx + 1; ++i) {
        size_t x = i <= mx ? i : 27;
        if (i > mx && mx >= 27) {
            break;
        }
        for (size_t nf : nfs) {
            std::set<std::vector<size_t>> seen;
            size_t top = x == 27 ? std::max<size_t>(my, 92) : my;
            for (size_t y = 1; y <= top; ++y) {
                if (y > my && y < 86) {
                    continue;
                }
                G::FineLayer m(x, y, 1.0, nf);
                auto k = list(m.elemrow_nhy());
                auto w = list(m.elemrow_nhx());
                k.insert(k.end(), w.begin(), w.end());
                if (!seen.insert(k).second) {
                    continue;
                }
                f(x, y, nf, "FineLayer(" + std::to_string(x) + "," + std::to_string(y) + ",nfine=" + std::to_string(nf) + ")");
            }
        }
    }
}

#ifdef G06
static int run(Explorer& X)
{
    size_t mx = X.deep ? 20 : X.thorough ? 16 : 10, my = X.deep ? 60 : X.thorough ? 48 : 30;
    std::vector<size_t> nfs = {1, 4};
    layered(mx, my, nfs, [&](size_t x, size_t y, size_t nf, const std::string& name) {
        double h = x % 2 ? 1.0 : 0.1;
        // rows and roll
        X.run([&]() { return name + " elementsLayer, roll"; }, [&]() {
            G::FineLayer m(x, y, h, nf);
            Layered L(m, h);
            for (size_t i = 0; i < L.rows(); ++i) {
                std::vector<size_t> e;
                for (size_t j = 0; j < L.n[i]; ++j) {
                    L.block(i, j, e);
                }
                X.check(list(m.elementsLayer(i)) == e, "elementsLayer(", i, ") is ", str(m.elementsLayer(i)), " expected ", str(e));
            }
            for (size_t n = 0; n <= 2 * L.n[0] + 1; ++n) {
                auto map = m.roll(n);
                X.check(map.size() == L.nelem, "roll(", n, ") has ", map.size(), " entries");
                for (size_t i = 0; i < L.rows(); ++i) {
                    size_t s = n * (L.n[i] / L.n[0]);
                    for (size_t j = 0; j < L.n[i]; ++j) {
                        std::vector<size_t> e;
                        L.block(i, (j + 2 * L.n[i] * (s / L.n[i] + 1) - s) % L.n[i], e);
                        for (size_t k = 0; k < e.size(); ++k) {
                            size_t p = L.start[i] + j * L.per[i] + k;
                            X.check(map(p) == e[k], "roll(", n, ")(", p, ") is ", map(p), " expected ", e[k]);
                        }
                    }
                }
                X.observe_all(map);
            }
        }, x > 1);
        // ranges
        size_t H;
        {
            G::FineLayer m(x, y, h, nf);
            H = m.nely();
        }
        for (size_t r0 = 0; r0 <= H; ++r0) {
            X.run([&]() { return name + " elementgrid_ravel from row " + std::to_string(r0); }, [&]() {
                G::FineLayer m(x, y, h, nf);
                Layered L(m, h);
                for (size_t r1 = r0; r1 <= H; ++r1) {
                    for (size_t c0 = 0; c0 <= x; ++c0) {
                        for (size_t c1 = c0; c1 <= x; ++c1) {
                            if (H > 60 && (c0 * 7 + c1 * 3 + r0 + r1) % 23 != 0) { // the largest meshes: some of the ranges
                                continue;
                            }
                            auto e = m.elementgrid_ravel({r0, r1}, {c0, c1});
                            auto ex = L.select(r0, r1, c0, c1);
                            X.check(list(e) == ex, "elementgrid_ravel({", r0, ",", r1, "},{", c0, ",", c1, "}) is ", str(e), " expected ", str(ex));
                            X.observe(e.size());
                        }
                    }
                    X.check(list(m.elementgrid_ravel({r0, r1}, {})) == L.select(r0, r1, 0, x), "elementgrid_ravel({", r0, ",", r1, "},{})");
                }
                for (size_t c0 = 0; c0 <= x; ++c0) {
                    for (size_t c1 = c0; c1 <= x; ++c1) {
                        X.check(list(m.elementgrid_ravel({}, {c0, c1})) == L.select(0, H, c0, c1), "elementgrid_ravel({},{", c0, ",", c1, "})");
                    }
                }
                X.check(m.elementgrid_ravel({}, {}).size() == L.nelem, "elementgrid_ravel({},{})");
            }, x > 1 && H > 1);
        }
        // neighbourhoods
        for (size_t c = 0; c < x; ++c) {
            X.run([&]() { return name + " neighbourhoods of element " + std::to_string(c) + " of the middle layer"; }, [&]() {
                G::FineLayer m(x, y, h, nf);
                Layered L(m, h);
                size_t e = m.elementsMiddleLayer()(c);
                for (size_t s = 0; s <= std::max(x, H) + 1; ++s) {
                    auto r = sorted(m.elementgrid_around_ravel(e, s));
                    auto ex = sorted(L.around(c, s, s, s, false));
                    X.check(r == ex, "elementgrid_around_ravel(", e, ", ", s, ") is ", str(r), " expected ", str(ex));
                    X.observe(r.size());
                }
                for (size_t l = 0; l <= x + 1; ++l) {
                    for (size_t q = 0; q <= x + 1; ++q) {
                        auto r = sorted(m.elementgrid_leftright(e, l, q));
                        auto ex = sorted(L.around(c, 0, l, q, true));
                        X.check(r == ex, "elementgrid_leftright(", e, ", ", l, ", ", q, ") is ", str(r), " expected ", str(ex));
                        X.observe(r.size());
                    }
                }
            }, x > 1);
        }
    });
    return X.finish("all distinct layered meshes up to width " + std::to_string(mx) + " (and 27)" + ", requested height " + std::to_string(my) +
                    ": every row and column range, every roll up to two periods, every middle element with every neighbourhood size and every left/right pair up to the width");
}
#endif

#ifdef G07
static std::string number(double h)
{
    std::ostringstream s;
    s << h;
    return s.str();
}

static bool same(Explorer& X, const G::FineLayer& a, const G::FineLayer& b, double h)
{
    X.equal(a.conn(), b.conn(), "conn()");
    X.close(A2(a.coor() / h), A2(b.coor() / h), 1e-9, "coor()");
    X.equal(a.elemrow_nhx(), b.elemrow_nhx(), "elemrow_nhx()");
    X.equal(a.elemrow_nhy(), b.elemrow_nhy(), "elemrow_nhy()");
    X.equal(a.elemrow_nelem(), b.elemrow_nelem(), "elemrow_nelem()");
    X.equal(a.elemrow_type(), b.elemrow_type(), "elemrow_type()");
    X.equal(a.elementsMiddleLayer(), b.elementsMiddleLayer(), "elementsMiddleLayer()");
    X.equal(a.nodesLeftEdge(), b.nodesLeftEdge(), "nodesLeftEdge()");
    X.equal(a.nodesRightEdge(), b.nodesRightEdge(), "nodesRightEdge()");
    X.equal(a.nodesPeriodic(), b.nodesPeriodic(), "nodesPeriodic()");
    X.check(a.nelx() == b.nelx() && a.nely() == b.nely(), "nelx(), nely()");
    X.check(a.nelem() == b.nelem() && a.nnode() == b.nnode() && a.nne() == b.nne() && a.ndim() == b.ndim(), "sizes");
    X.close1(a.h() / h, 1.0, 1e-9, "h()");
    return true;
}

static int run(Explorer& X)
{
    size_t mx = X.deep ? 45 : X.thorough ? 30 : 27, my = X.deep ? 160 : X.thorough ? 120 : 60;
    size_t rejected = 0, defaults = 0;
    std::vector<std::array<size_t, 2>> sizes;
    for (size_t x = 1; x <= mx; ++x) {
        for (size_t y = 1; y <= my; ++y) {
            sizes.push_back({x, y});
        }
    }
    for (size_t y = 86; y <= 92; ++y) { // third level of coarsening
        sizes.push_back({27, y});
    }
    for (size_t y = 267; y <= 270; ++y) { // fourth level
        sizes.push_back({81, y});
    }
    // (the last ones: microscopic and astronomic units)
    for (double h : {1.0, 0.1, 0.3, 1.7, 3e-9, 1e-12, 1e9}) {
        bool unit = h < 1e-3 || h > 1e3;
        for (auto& size : sizes) {
            if (!unit || (size[0] <= 9 && size[1] <= 40)) {
                size_t x = size[0], y = size[1];
                for (size_t nf : {1, 3, 6}) {
                    if (h != 1.0 && !unit && nf != 1) {
                        continue;
                    }
                    X.run([&]() { return "FineLayer(" + std::to_string(x) + "," + std::to_string(y) + "," + number(h) + "," + std::to_string(nf) + ")"; }, [&]() {
                        G::FineLayer m(x, y, h, nf);
                        A2 coor = m.coor();
                        S2 conn = m.conn();
                        G::FineLayer r(coor, conn);
                        same(X, r, m, h);
                    }, x * y > 1);
                }
            }
        }
    }
    (void)rejected;
    (void)defaults;
    // a mesh that is not a layered mesh is rejected
    for (size_t x : {1, 2, 3, 6}) {
        for (size_t y : {1, 2, 3, 7, 13}) {
          for (double h : {1.0, 1e-10, 1e7}) {
            X.run([&]() { return "single defects in FineLayer(" + std::to_string(x) + "," + std::to_string(y) + "," + number(h) + ")"; }, [&]() {
                G::FineLayer m(x, y, h);
                A2 coor = m.coor();
                S2 conn = m.conn();
                auto rejects = [&](const A2& c, const S2& e, const std::string& what) {
                    bool thrown = false;
                    try {
                        G::FineLayer r(c, e);
                    }
                    catch (const std::exception&) {
                        thrown = true;
                    }
                    X.check(thrown, "a mesh with ", what, " is accepted");
                };
                for (size_t i = 0; i < coor.shape(0); ++i) {
                    for (size_t d = 0; d < 2; ++d) {
                        for (double s : {0.25, -0.25}) {
                            A2 c = coor;
                            c(i, d) += s * h;
                            rejects(c, conn, "node " + std::to_string(i) + " moved");
                        }
                    }
                }
                for (size_t e = 0; e < conn.shape(0); ++e) {
                    for (size_t a = 0; a < 4; ++a) {
                        S2 c = conn;
                        c(e, a) = (c(e, a) + 1) % coor.shape(0);
                        rejects(coor, c, "entry (" + std::to_string(e) + "," + std::to_string(a) + ") of conn changed");
                    }
                    if (e + 1 < conn.shape(0)) {
                        S2 c = conn;
                        for (size_t a = 0; a < 4; ++a) {
                            std::swap(c(e, a), c(e + 1, a));
                        }
                        rejects(coor, c, "elements " + std::to_string(e) + " and the next swapped");
                    }
                }
                X.observe(conn.size());
            });
          }
        }
    }
    return X.finish("all layered meshes of width 1.." + std::to_string(mx) + " (and 27)" + " and requested height 1.." + std::to_string(my) +
                    ", four edge sizes and three numbers of fine rows (up to 9x40 also in units of 3e-9, 1e-12 and 1e9); every single moved node, changed connectivity entry and swap of neighbouring elements in 60 meshes");
}
#endif

// Data of some rank with identifiable entries.
template <size_t rank>
xt::xtensor<double, rank> field(size_t n)
{
    std::array<size_t, rank> s;
    s[0] = n;
    for (size_t i = 1; i < rank; ++i) {
        s[i] = i + 1;
    }
    xt::xtensor<double, rank> r = xt::empty<double>(s);
    Lcg g(n + rank);
    for (auto& v : r) {
        v = g.integer(-1000, 1000);
    }
    return r;
}

#ifdef G08
template <size_t rank>
void refine_data(Explorer& X, const G::Map::RefineRegular& r, const std::vector<std::vector<size_t>>& map, size_t nf)
{
    auto coarse = field<rank>(map.size());
    auto fine = field<rank>(nf);
    size_t nc = coarse.size() / map.size();
    auto d = r.mapToFine(coarse);
    auto same = fine.shape();
    X.same_shape(d.shape(), same, "mapToFine()");
    auto back = r.meanToCoarse(d);
    X.same_shape(back.shape(), coarse.shape(), "meanToCoarse(mapToFine())");
    auto mean = r.meanToCoarse(fine);
    xt::xtensor<double, rank> w = fine;
    Lcg g(7);
    for (auto& v : w) {
        v = g.integer(1, 9);
    }
    auto avg = r.averageToCoarse(fine, w);
    auto avg_back = r.averageToCoarse(d, w);
    X.same_shape(mean.shape(), coarse.shape(), "meanToCoarse()");
    X.same_shape(avg.shape(), coarse.shape(), "averageToCoarse()");
    for (size_t c = 0; c < map.size(); ++c) {
        for (size_t k = 0; k < nc; ++k) {
            double sum = 0, ws = 0, wd = 0;
            for (auto f : map[c]) {
                X.check(d.data()[f * nc + k] == coarse.data()[c * nc + k], "mapToFine() of rank ", rank, ": element ", f, " component ", k, " is ", d.data()[f * nc + k]);
                sum += fine.data()[f * nc + k];
                ws += w.data()[f * nc + k];
                wd += w.data()[f * nc + k] * fine.data()[f * nc + k];
            }
            X.close1(back.data()[c * nc + k], coarse.data()[c * nc + k], 1e-12, "meanToCoarse(mapToFine())", c);
            X.close1(avg_back.data()[c * nc + k], coarse.data()[c * nc + k], 1e-12, "averageToCoarse(mapToFine())", c);
            X.close1(mean.data()[c * nc + k], sum / static_cast<double>(map[c].size()), 1e-12, "meanToCoarse()", c);
            X.close1(avg.data()[c * nc + k], wd / ws, 1e-12, "averageToCoarse()", c);
        }
    }
}

static int run(Explorer& X)
{
    size_t n = X.deep ? 11 : X.thorough ? 8 : 5;
    for (size_t x = 1; x <= n; ++x) {
        for (size_t y = 1; y <= n; ++y) {
            for (size_t nx = 1; nx <= n; ++nx) {
                for (size_t ny = 1; ny <= n; ++ny) {
                    X.run([&]() { return "Regular(" + std::to_string(x) + "," + std::to_string(y) + ") refined " + std::to_string(nx) + " x " + std::to_string(ny); }, [&]() {
                        double h = 0.5 * static_cast<double>(x);
                        G::Regular coarse(x, y, h);
                        G::Map::RefineRegular r0(coarse, nx, ny);
                        G::Map::RefineRegular r = r0; // copies are equivalent
                        X.check(r.nx() == nx && r.ny() == ny, "nx(), ny()");
                        X.equal(r.coarseMesh().conn(), coarse.conn(), "coarseMesh().conn()");
                        X.equal(r.coarseMesh().coor(), coarse.coor(), "coarseMesh().coor()");
                        auto fine = r.fineMesh();
                        X.equal(r.getCoarseMesh().conn(), coarse.conn(), "getCoarseMesh().conn()");
                        X.equal(r.getCoarseMesh().coor(), coarse.coor(), "getCoarseMesh().coor()");
                        X.equal(r.getFineMesh().conn(), fine.conn(), "getFineMesh().conn()");
                        X.equal(r.getFineMesh().coor(), fine.coor(), "getFineMesh().coor()");
                        X.equal(S2(r.getMap()), S2(r.map()), "getMap()");
                        X.check(fine.nelx() == x * nx && fine.nely() == y * ny, "fineMesh() is ", fine.nelx(), " x ", fine.nely());
                        // fine elements by position on the grid
                        std::vector<std::vector<size_t>> map(x * y);
                        for (size_t j = 0; j < y * ny; ++j) {
                            for (size_t i = 0; i < x * nx; ++i) {
                                map[(j / ny) * x + i / nx].push_back(j * x * nx + i);
                            }
                        }
                        S2 m = r.map();
                        X.same_shape(m.shape(), std::vector<size_t>{x * y, nx * ny}, "map()");
                        for (size_t c = 0; c < map.size(); ++c) {
                            for (size_t k = 0; k < map[c].size(); ++k) {
                                X.check(m(c, k) == map[c][k], "map()(", c, ", ", k, ") is ", m(c, k), " expected ", map[c][k]);
                                X.observe(m(c, k));
                            }
                        }
                        refine_data<1>(X, r, map, fine.nelem());
                        refine_data<2>(X, r, map, fine.nelem());
                        refine_data<3>(X, r, map, fine.nelem());
                        refine_data<4>(X, r, map, fine.nelem());
                    }, nx * ny > 1);
                }
            }
        }
    }
    return X.finish("all regular meshes and refinement factors 1.." + std::to_string(n) + " per direction, data of rank 1 to 4");
}
#endif

#ifdef G09
// Area of the intersection of a convex polygon with the square [i, i+1] x [j, j+1].
static double overlap(std::vector<std::array<double, 2>> p, double i, double j)
{
    for (int side = 0; side < 4; ++side) {
        auto inside = [&](const std::array<double, 2>& a) {
            switch (side) {
            case 0: return a[0] - i;
            case 1: return i + 1 - a[0];
            case 2: return a[1] - j;
            default: return j + 1 - a[1];
            }
        };
        std::vector<std::array<double, 2>> q;
        for (size_t k = 0; k < p.size(); ++k) {
            auto a = p[k], b = p[(k + 1) % p.size()];
            double u = inside(a), v = inside(b);
            if (u >= 0) {
                q.push_back(a);
            }
            if ((u > 0 && v < 0) || (u < 0 && v > 0)) {
                double t = u / (u - v);
                q.push_back({a[0] + t * (b[0] - a[0]), a[1] + t * (b[1] - a[1])});
            }
        }
        p = q;
        if (p.empty()) {
            return 0;
        }
    }
    double s = 0;
    for (size_t k = 0; k < p.size(); ++k) {
        auto a = p[k], b = p[(k + 1) % p.size()];
        s += 0.5 * (a[0] * b[1] - b[0] * a[1]);
    }
    return s;
}

template <size_t rank>
void regular_data(Explorer& X, const G::Map::FineLayer2Regular& r, const std::vector<std::vector<std::pair<size_t, double>>>& frac, size_t nf)
{
    auto data = field<rank>(nf);
    size_t nc = data.size() / nf;
    auto d = r.mapToRegular(data);
    auto s = data.shape();
    s[0] = frac.size();
    X.same_shape(d.shape(), s, "mapToRegular()");
    for (size_t c = 0; c < frac.size(); ++c) {
        for (size_t k = 0; k < nc; ++k) {
            double v = 0;
            for (auto& f : frac[c]) {
                v += f.second * data.data()[f.first * nc + k];
            }
            X.close1(d.data()[c * nc + k], v, 1e-12, "mapToRegular() of rank " + std::to_string(rank), c * nc + k);
        }
    }
}

static int run(Explorer& X)
{
    size_t mx = X.deep ? 54 : X.thorough ? 36 : 18, my = X.deep ? 160 : X.thorough ? 120 : 60;
    layered(mx, my, {1, 4}, [&](size_t x, size_t y, size_t nf, const std::string& name) {
        X.run([&]() { return name; }, [&]() {
            double h = x % 2 ? 1.0 : 0.1;
            G::FineLayer m(x, y, h, nf);
            G::Map::FineLayer2Regular r0(m);
            G::Map::FineLayer2Regular r = r0;
            A2 coor = m.coor();
            S2 conn = m.conn();
            X.equal(r.fineLayerMesh().conn(), conn, "fineLayerMesh().conn()");
            X.equal(r.fineLayerMesh().coor(), coor, "fineLayerMesh().coor()");
            auto reg = r.regularMesh();
            X.equal(r.getFineLayerMesh().conn(), conn, "getFineLayerMesh().conn()");
            X.equal(r.getRegularMesh().conn(), reg.conn(), "getRegularMesh().conn()");
            X.equal(r.getRegularMesh().coor(), reg.coor(), "getRegularMesh().coor()");
            X.check(r.getMap() == r.map(), "getMap()");
            X.check(r.getMapFraction() == r.mapFraction(), "getMapFraction()");
            X.check(reg.nelx() == m.nelx() && reg.nely() == m.nely() && reg.h() == m.h(), "regularMesh()");
            size_t W = m.nelx(), H = m.nely();
            auto map = r.map();
            auto fr = r.mapFraction();
            X.check(map.size() == conn.shape(0) && fr.size() == conn.shape(0), "size of map()");
            std::vector<std::vector<std::pair<size_t, double>>> frac(W * H);
            std::vector<double> total(W * H, 0.0);
            for (size_t e = 0; e < conn.shape(0); ++e) {
                std::vector<std::array<double, 2>> p;
                double lo[2] = {1e9, 1e9}, hi[2] = {-1, -1};
                for (size_t a = 0; a < 4; ++a) {
                    std::array<double, 2> q;
                    for (size_t d = 0; d < 2; ++d) {
                        q[d] = static_cast<double>(std::lround(coor(conn(e, a), d) / h));
                        lo[d] = std::min(lo[d], q[d]);
                        hi[d] = std::max(hi[d], q[d]);
                    }
                    p.push_back(q);
                }
                std::map<size_t, double> got;
                X.check(map[e].size() == fr[e].size(), "sizes of map() and mapFraction() of element ", e);
                for (size_t k = 0; k < map[e].size(); ++k) {
                    X.check(map[e][k] < W * H, "map() of element ", e, " lists element ", map[e][k]);
                    X.check(fr[e][k] > 0.0, "mapFraction() of element ", e, " is ", fr[e][k]);
                    X.check(got.insert({map[e][k], fr[e][k]}).second, "map() of element ", e, " lists element ", map[e][k], " twice");
                }
                size_t n = 0;
                for (double j = lo[1]; j < hi[1]; j += 1) {
                    for (double i = lo[0]; i < hi[0]; i += 1) {
                        double v = overlap(p, i, j);
                        size_t c = static_cast<size_t>(j) * W + static_cast<size_t>(i);
                        if (v > 1e-9) {
                            ++n;
                            X.check(got.count(c) == 1, "map() of element ", e, " misses element ", c);
                            X.close1(got[c], v, 1e-9, "fraction of element " + std::to_string(e) + " on element", c);
                            frac[c].push_back({e, v});
                            total[c] += v;
                        }
                    }
                }
                X.check(n == got.size(), "map() of element ", e, " lists ", got.size(), " elements, it overlaps ", n);
            }
            for (size_t c = 0; c < total.size(); ++c) {
                X.close1(total[c], 1.0, 1e-9, "harness: overlaps of element", c);
            }
            regular_data<1>(X, r, frac, conn.shape(0));
            regular_data<2>(X, r, frac, conn.shape(0));
            regular_data<3>(X, r, frac, conn.shape(0));
        }, x > 1);
    });
    return X.finish("all distinct layered meshes of width 1.." + std::to_string(mx) + " (and 27)" + " and requested height 1.." + std::to_string(my) + ", data of rank 1 to 3");
}
#endif

int main(int argc, char** argv)
{
    Explorer X(argc, argv);
    return run(X);
}
