// G01: regular meshes; G02: node sets; G03: periodicity; G04: Quad4::FineLayer; G05: Hex8::FineLayer
#include "world.h"
#include "nodesets.h"

using namespace vh;
namespace G = GooseFEM::Mesh;

static double extent(const A2& c, size_t d, bool hi)
{
    double m = c(0, d);
    for (size_t i = 0; i < c.shape(0); ++i) {
        m = hi ? std::max(m, c(i, d)) : std::min(m, c(i, d));
    }
    return m;
}

static std::string number(double h)
{
    std::ostringstream s;
    s << h;
    return s.str();
}

// microscopic and astronomic units
static bool extreme(double h)
{
    return h < 1e-3 || h > 1e3;
}

static double det2(double a, double b, double c, double d)
{
    return a * d - b * c;
}

// Position on the lattice of spacing "h"; fails if a coordinate is not on the lattice.
static std::vector<std::array<long, 3>> lattice(Explorer& X, const A2& coor, double h, size_t div)
{
    std::vector<std::array<long, 3>> r(coor.shape(0), {0, 0, 0});
    for (size_t i = 0; i < coor.shape(0); ++i) {
        for (size_t d = 0; d < coor.shape(1); ++d) {
            double v = coor(i, d) / h * static_cast<double>(div);
            long k = std::lround(v);
            X.check(std::abs(v - static_cast<double>(k)) < 1e-6, "node ", i, " component ", d, " has coordinate ", coor(i, d), " that is not a multiple of ", h / static_cast<double>(div));
            r[i][d] = k;
        }
    }
    return r;
}

// A conforming tessellation of the box [0, L_0] x [0, L_1] (x [0, L_2]).
static void tessellation(Explorer& X, const A2& coor, const S2& conn, const std::vector<double>& L, double h)
{
    size_t nnode = coor.shape(0), ndim = coor.shape(1), nelem = conn.shape(0), nne = conn.shape(1);
    X.check(ndim == L.size(), "ndim");
    for (size_t d = 0; d < ndim; ++d) {
        X.close1(extent(coor, d, false) / h, 0.0, 1e-9, "lower bound of component " + std::to_string(d));
        X.close1(extent(coor, d, true) / h, L[d] / h, 1e-9, "upper bound of component " + std::to_string(d));
    }
    auto pos = lattice(X, coor, h, 1);
    std::set<std::array<long, 3>> seen;
    for (size_t i = 0; i < nnode; ++i) {
        X.check(seen.insert(pos[i]).second, "node ", i, " coincides with another node");
    }
    std::vector<bool> used(nnode, false);
    std::map<std::vector<size_t>, size_t> facets;
    double vol = 0.0;
    for (size_t e = 0; e < nelem; ++e) {
        std::set<size_t> s;
        for (size_t m = 0; m < nne; ++m) {
            X.check(conn(e, m) < nnode, "element ", e, " refers to node ", conn(e, m), " of ", nnode);
            used[conn(e, m)] = true;
            s.insert(conn(e, m));
        }
        X.check(s.size() == nne, "element ", e, " refers to the same node more than once");
        auto x = [&](size_t m, size_t d) { return coor(conn(e, m), d); };
        double v = 0.0;
        if (nne == 3 || nne == 4) {
            for (size_t m = 0; m < nne; ++m) {
                size_t n = (m + 1) % nne;
                size_t p = (m + nne - 1) % nne;
                v += 0.5 * (x(m, 0) * x(n, 1) - x(n, 0) * x(m, 1));
                double J = det2(x(n, 0) - x(m, 0), x(n, 1) - x(m, 1), x(p, 0) - x(m, 0), x(p, 1) - x(m, 1));
                X.check(J > 1e-6 * h * h, "element ", e, " is not positively oriented (or not convex) at its node ", m);
                std::vector<size_t> f = {conn(e, m), conn(e, n)};
                std::sort(f.begin(), f.end());
                facets[f]++;
            }
        }
        else {
            // corner Jacobians and volume of a trilinear hexahedron (2x2x2 Gauss is exact)
            static const int nb[8][3] = {{1, 3, 4}, {2, 0, 5}, {3, 1, 6}, {0, 2, 7}, {7, 5, 0}, {4, 6, 1}, {5, 7, 2}, {6, 4, 3}};
            for (size_t m = 0; m < 8; ++m) {
                double a[3][3];
                for (size_t k = 0; k < 3; ++k) {
                    for (size_t d = 0; d < 3; ++d) {
                        a[k][d] = x(static_cast<size_t>(nb[m][k]), d) - x(m, d);
                    }
                }
                double J = a[0][0] * det2(a[1][1], a[1][2], a[2][1], a[2][2]) - a[0][1] * det2(a[1][0], a[1][2], a[2][0], a[2][2]) +
                           a[0][2] * det2(a[1][0], a[1][1], a[2][0], a[2][1]);
                X.check(J > 1e-6 * h * h * h, "element ", e, " is not positively oriented at its node ", m);
            }
            static const double sx[8] = {-1, 1, 1, -1, -1, 1, 1, -1}, sy[8] = {-1, -1, 1, 1, -1, -1, 1, 1}, sz[8] = {-1, -1, -1, -1, 1, 1, 1, 1};
            double g = 1.0 / std::sqrt(3.0);
            for (size_t q = 0; q < 8; ++q) {
                double xi[3] = {sx[q] * g, sy[q] * g, sz[q] * g};
                double J[3][3] = {};
                for (size_t m = 0; m < 8; ++m) {
                    double dN[3] = {sx[m] * (1 + sy[m] * xi[1]) * (1 + sz[m] * xi[2]) / 8, sy[m] * (1 + sx[m] * xi[0]) * (1 + sz[m] * xi[2]) / 8,
                                    sz[m] * (1 + sx[m] * xi[0]) * (1 + sy[m] * xi[1]) / 8};
                    for (size_t k = 0; k < 3; ++k) {
                        for (size_t d = 0; d < 3; ++d) {
                            J[k][d] += dN[k] * x(m, d);
                        }
                    }
                }
                v += J[0][0] * det2(J[1][1], J[1][2], J[2][1], J[2][2]) - J[0][1] * det2(J[1][0], J[1][2], J[2][0], J[2][2]) +
                     J[0][2] * det2(J[1][0], J[1][1], J[2][0], J[2][1]);
            }
            static const int fc[6][4] = {{0, 1, 2, 3}, {4, 5, 6, 7}, {0, 1, 5, 4}, {2, 3, 7, 6}, {0, 3, 7, 4}, {1, 2, 6, 5}};
            for (auto& q : fc) {
                std::vector<size_t> f;
                for (int k : q) {
                    f.push_back(conn(e, static_cast<size_t>(k)));
                }
                std::sort(f.begin(), f.end());
                facets[f]++;
            }
        }
        vol += v;
    }
    for (size_t i = 0; i < nnode; ++i) {
        X.check(used[i], "node ", i, " is not used by any element");
    }
    double box = 1.0;
    for (auto l : L) {
        box *= l;
    }
    X.close1(vol / box, 1.0, 1e-9, "sum of the element volumes relative to the box");
    for (auto& f : facets) {
        X.check(f.second <= 2, "facet ", str(f.first), " belongs to ", f.second, " elements");
        if (f.second == 1) {
            bool on = false;
            for (size_t d = 0; d < ndim; ++d) {
                bool lo = true, hi = true;
                for (auto n : f.first) {
                    lo = lo && std::abs(coor(n, d)) < 1e-6 * h;
                    hi = hi && std::abs(coor(n, d) - L[d]) < 1e-6 * h;
                }
                on = on || lo || hi;
            }
            X.check(on, "facet ", str(f.first), " inside the mesh belongs to one element only (hanging node)");
        }
    }
    X.counts["facets"] += facets.size();
    for (size_t e = 0; e < std::min<size_t>(nelem, 8); ++e) {
        X.observe(conn(e, 0) * 31 + conn(e, nne - 1));
    }
    X.observe(nelem);
    X.observe(nnode);
}

template <class M>
void meta(Explorer& X, const M& m, size_t nelem, size_t nnode, size_t nne, size_t ndim, double h, GooseFEM::Mesh::ElementType t)
{
    X.check(m.nelem() == nelem, "nelem() is ", m.nelem(), " expected ", nelem);
    X.check(m.nnode() == nnode, "nnode() is ", m.nnode(), " expected ", nnode);
    X.check(m.nne() == nne, "nne() is ", m.nne());
    X.check(m.ndim() == ndim, "ndim() is ", m.ndim());
    X.check(m.h() == h, "h() is ", m.h());
    X.check(m.elementType() == t, "elementType()");
    X.same_shape(m.coor().shape(), std::vector<size_t>{nnode, ndim}, "coor()");
    X.same_shape(m.conn().shape(), std::vector<size_t>{nelem, nne}, "conn()");
    S2 d = m.dofs();
    X.same_shape(d.shape(), std::vector<size_t>{nnode, ndim}, "dofs()");
    for (size_t i = 0; i < nnode * ndim; ++i) {
        X.check(d.data()[i] == i, "dofs(): entry ", i, " is ", d.data()[i]);
    }
}

template <class A>
void expect_conn(Explorer& X, const S2& conn, size_t e, const A& n)
{
    size_t m = 0;
    for (size_t v : n) {
        X.check(conn(e, m) == v, "conn(", e, ", ", m, ") is ", conn(e, m), " expected ", v);
        ++m;
    }
}

// ---------------------------------------------------------------------------------------- families

// f(mesh, name, box in units of h, layered)
template <class F>
void family2(Explorer&, const std::vector<double>& hs, size_t n, size_t nfx, size_t nfy, F&& f)
{
    for (double h : hs) {
        for (size_t x = 1; x <= n; ++x) {
            for (size_t y = 1; y <= n; ++y) {
                std::string s = "(" + std::to_string(x) + "," + std::to_string(y) + "," + number(h) + ")";
                f(G::Quad4::Regular(x, y, h), "Quad4::Regular" + s, x * y + x + y);
                f(G::Tri3::Regular(x, y, h), "Tri3::Regular" + s, x * y + x + y);
            }
        }
        for (size_t x : std::vector<size_t>{1, 2, 3, 4, 5, 6, 8, 9, 12, 18, 27, 36, 54, 81}) {
            if (x > nfx) {
                continue;
            }
            // also heights at which the third and fourth level of coarsening appear
            std::vector<size_t> ys;
            for (size_t y = 1; y <= nfy; ++y) {
                ys.push_back(y);
            }
            if (x == 27 && nfy < 86) {
                ys.insert(ys.end(), {86, 87, 88, 89, 90, 91, 92, 100});
            }
            if (x == 81) {
                ys.insert(ys.end(), {267, 268, 269, 270, 271});
            }
            for (size_t y : ys) {
                for (size_t nf : {0, 1, 2, 5}) {
                    std::string s = "(" + std::to_string(x) + "," + std::to_string(y) + "," + number(h) + "," + std::to_string(nf) + ")";
                    f(G::Quad4::FineLayer(x, y, h, nf), "Quad4::FineLayer" + s, x * y + x + y);
                }
            }
        }
    }
}

// sizes at which the second and third level of coarsening appear along x, z or both
inline void deep3(std::vector<std::array<size_t, 3>>& sizes)
{
    for (size_t y : {15, 26, 27, 28, 29, 30, 44, 45, 46, 81, 82, 83, 86, 87, 88, 89, 90, 91}) {
        for (auto& s : std::vector<std::array<size_t, 2>>{{1, 27}, {27, 1}, {3, 27}, {27, 3}}) {
            sizes.push_back({s[0], y, s[1]});
        }
    }
    for (size_t y : {27, 28, 45, 46}) {
        sizes.push_back({9, y, 9});
    }
    for (size_t y : {27, 45, 81, 82}) {
        sizes.push_back({9, y, 27});
        sizes.push_back({27, y, 9});
        sizes.push_back({27, y, 27});
    }
}

template <class F>
void family3(Explorer&, const std::vector<double>& hs, size_t n, const std::vector<size_t>& nfx, size_t nfy, F&& f)
{
    for (double h : hs) {
        for (size_t x = 1; x <= n; ++x) {
            for (size_t y = 1; y <= n; ++y) {
                for (size_t z = 1; z <= n; ++z) {
                    std::string s = "(" + std::to_string(x) + "," + std::to_string(y) + "," + std::to_string(z) + "," + number(h) + ")";
                    f(G::Hex8::Regular(x, y, z, h), "Hex8::Regular" + s, x * y * z);
                }
            }
        }
        std::vector<std::array<size_t, 3>> sizes;
        for (size_t x : nfx) {
            for (size_t z : nfx) {
                for (size_t y = 1; y <= nfy; ++y) {
                    sizes.push_back({x, y, z});
                }
            }
        }
        deep3(sizes);
        for (auto& size : sizes) {
            {
                {
                    size_t x = size[0], y = size[1], z = size[2];
                    for (size_t nf : {1, 3}) {
                        std::string s = "(" + std::to_string(x) + "," + std::to_string(y) + "," + std::to_string(z) + "," + number(h) + "," + std::to_string(nf) + ")";
                        f(G::Hex8::FineLayer(x, y, z, h, nf), "Hex8::FineLayer" + s, x * y * z);
                    }
                }
            }
        }
    }
}

// ---------------------------------------------------------------------------------------- G01
#ifdef G01
static int run(Explorer& X)
{
    std::vector<double> hs = {1.0, 0.1, 3.25, 0.015625, 40.0, 3e-9, 1e-12, 1e9};
    size_t n2 = X.deep ? 45 : X.thorough ? 24 : 14, n3 = X.deep ? 14 : X.thorough ? 9 : 6;
    for (double h : hs) {
        for (size_t x = 1; x <= (extreme(h) ? 7 : n2); ++x) {
            for (size_t y = 1; y <= (extreme(h) ? 7 : n2); ++y) {
                std::string s = "(" + std::to_string(x) + "," + std::to_string(y) + "," + number(h) + ")";
                auto node = [&](size_t i, size_t j) { return j * (x + 1) + i; };
                auto common = [&](const A2& coor, const S2& conn, const auto& m) {
                    X.check(m.nelx() == x && m.nely() == y, "nelx/nely");
                    for (size_t j = 0; j <= y; ++j) {
                        for (size_t i = 0; i <= x; ++i) {
                            X.close1(coor(node(i, j), 0) / h, static_cast<double>(i), 1e-12, "x of node", node(i, j));
                            X.close1(coor(node(i, j), 1) / h, static_cast<double>(j), 1e-12, "y of node", node(i, j));
                        }
                    }
                    tessellation(X, coor, conn, {h * static_cast<double>(x), h * static_cast<double>(y)}, h);
                };
                X.run([&]() { return "Quad4::Regular" + s; }, [&]() {
                    G::Quad4::Regular m(x, y, h);
                    meta(X, m, x * y, (x + 1) * (y + 1), 4, 2, h, G::ElementType::Quad4);
                    A2 coor = m.coor();
                    S2 conn = m.conn();
                    common(coor, conn, m);
                    S2 g = m.elementgrid();
                    X.same_shape(g.shape(), std::vector<size_t>{y, x}, "elementgrid()");
                    for (size_t j = 0; j < y; ++j) {
                        for (size_t i = 0; i < x; ++i) {
                            X.check(g(j, i) == j * x + i, "elementgrid()(", j, ", ", i, ") is ", g(j, i));
                            expect_conn(X, conn, g(j, i), std::vector<size_t>{node(i, j), node(i + 1, j), node(i + 1, j + 1), node(i, j + 1)});
                        }
                    }
                    G::Quad4::Regular c = m;
                    m = G::Quad4::Regular(x + 1, y, h);
                    X.equal(c.conn(), conn, "conn of a copy after assigning to the original");
                    X.equal(c.coor(), coor, "coor of a copy after assigning to the original");
                }, x * y > 1);
                X.run([&]() { return "Tri3::Regular" + s; }, [&]() {
                    G::Tri3::Regular m(x, y, h);
                    meta(X, m, 2 * x * y, (x + 1) * (y + 1), 3, 2, h, G::ElementType::Tri3);
                    A2 coor = m.coor();
                    S2 conn = m.conn();
                    common(coor, conn, m);
                    for (size_t j = 0; j < y; ++j) {
                        for (size_t i = 0; i < x; ++i) {
                            size_t e = 2 * (j * x + i);
                            expect_conn(X, conn, e, std::vector<size_t>{node(i, j), node(i + 1, j), node(i, j + 1)});
                            expect_conn(X, conn, e + 1, std::vector<size_t>{node(i + 1, j), node(i + 1, j + 1), node(i, j + 1)});
                        }
                    }
                }, x * y > 1);
            }
        }
        for (size_t x = 1; x <= n3; ++x) {
            for (size_t y = 1; y <= n3; ++y) {
                for (size_t z = 1; z <= n3; ++z) {
                    X.run([&]() { return "Hex8::Regular(" + std::to_string(x) + "," + std::to_string(y) + "," + std::to_string(z) + "," + number(h) + ")"; }, [&]() {
                        G::Hex8::Regular m(x, y, z, h);
                        meta(X, m, x * y * z, (x + 1) * (y + 1) * (z + 1), 8, 3, h, G::ElementType::Hex8);
                        X.check(m.nelx() == x && m.nely() == y && m.nelz() == z, "nelx/nely/nelz");
                        A2 coor = m.coor();
                        S2 conn = m.conn();
                        auto node = [&](size_t i, size_t j, size_t k) { return (k * (y + 1) + j) * (x + 1) + i; };
                        for (size_t k = 0; k <= z; ++k) {
                            for (size_t j = 0; j <= y; ++j) {
                                for (size_t i = 0; i <= x; ++i) {
                                    X.close1(coor(node(i, j, k), 0) / h, static_cast<double>(i), 1e-12, "x of node", node(i, j, k));
                                    X.close1(coor(node(i, j, k), 1) / h, static_cast<double>(j), 1e-12, "y of node", node(i, j, k));
                                    X.close1(coor(node(i, j, k), 2) / h, static_cast<double>(k), 1e-12, "z of node", node(i, j, k));
                                }
                            }
                        }
                        for (size_t k = 0; k < z; ++k) {
                            for (size_t j = 0; j < y; ++j) {
                                for (size_t i = 0; i < x; ++i) {
                                    expect_conn(X, conn, (k * y + j) * x + i,
                                                std::vector<size_t>{node(i, j, k), node(i + 1, j, k), node(i + 1, j + 1, k), node(i, j + 1, k), node(i, j, k + 1),
                                                                    node(i + 1, j, k + 1), node(i + 1, j + 1, k + 1), node(i, j + 1, k + 1)});
                                }
                            }
                        }
                        tessellation(X, coor, conn, {h * static_cast<double>(x), h * static_cast<double>(y), h * static_cast<double>(z)}, h);
                    }, x * y * z > 1);
                }
            }
        }
    }
    return X.finish("all regular meshes with 1.." + std::to_string(n2) + " elements per direction in two and 1.." + std::to_string(n3) + " in three dimensions, five edge sizes (up to 7 elements also 3e-9, 1e-12 and 1e9)");
}
#endif

// ---------------------------------------------------------------------------------------- G02, G03

struct NodeSet {
    std::string name;
    std::vector<size_t> nodes;
    bool scalar;
};

inline void push(std::vector<NodeSet>& r, const char* n, size_t v)
{
    r.push_back({n, {v}, true});
}

inline void push(std::vector<NodeSet>& r, const char* n, const S1& v)
{
    r.push_back({n, std::vector<size_t>(v.begin(), v.end()), false});
}

template <class M>
std::vector<NodeSet> nodesets2(const M& m)
{
    std::vector<NodeSet> r;
#define X_(n) push(r, #n, m.n());
    NODESETS_2D(X_)
#undef X_
    return r;
}

template <class M>
std::vector<NodeSet> nodesets3(const M& m)
{
    std::vector<NodeSet> r;
#define X_(n) push(r, #n, m.n());
    NODESETS_3D(X_)
#undef X_
    return r;
}

// Nodes that the name of the set describes, in order of increasing node number.
static std::vector<size_t> definition(const std::string& name, const std::vector<std::array<long, 3>>& pos, size_t ndim)
{
    std::array<long, 3> top = {0, 0, 0};
    for (auto& p : pos) {
        for (size_t d = 0; d < 3; ++d) {
            top[d] = std::max(top[d], p[d]);
        }
    }
    std::array<int, 3> side = {0, 0, 0}; // -1: low, +1: high
    std::string s = name.substr(5), kind;
    while (!s.empty()) {
        bool found = false;
        static const struct { const char* n; size_t d; int v; } sides[] = {{"Left", 0, -1}, {"Right", 0, 1}, {"Bottom", 1, -1}, {"Top", 1, 1}, {"Front", 2, -1}, {"Back", 2, 1}};
        for (auto& t : sides) {
            if (s.rfind(t.n, 0) == 0) {
                side[t.d] = t.v;
                s = s.substr(std::strlen(t.n));
                found = true;
                break;
            }
        }
        if (!found) {
            kind = s;
            break;
        }
    }
    bool open = kind == "OpenEdge" || kind == "Face";
    std::vector<size_t> r;
    for (size_t i = 0; i < pos.size(); ++i) {
        bool in = true;
        for (size_t d = 0; d < ndim; ++d) {
            if (side[d] < 0) {
                in = in && pos[i][d] == 0;
            }
            else if (side[d] > 0) {
                in = in && pos[i][d] == top[d];
            }
            else if (open) {
                in = in && pos[i][d] != 0 && pos[i][d] != top[d];
            }
        }
        if (in) {
            r.push_back(i);
        }
    }
    return r;
}

template <class M>
void check_nodesets(Explorer& X, const M& m, const std::vector<NodeSet>& sets, size_t ndim)
{
    A2 coor = m.coor();
    auto pos = lattice(X, coor, m.h(), 1);
    std::map<std::string, std::vector<size_t>> faces;
    for (auto& s : sets) {
        auto expected = definition(s.name, pos, ndim);
        if (s.scalar) {
            X.check(expected.size() == 1, "harness: ", s.name);
        }
        bool face = ndim == 3 && s.name.find("Edge") == std::string::npos && !s.scalar;
        auto nodes = s.nodes;
        if (face) { // no order is documented for faces: compare as sets, and opposite faces with each other (below)
            std::sort(nodes.begin(), nodes.end());
            faces[s.name] = s.nodes;
        }
        else { // along an edge: increasing position
            std::sort(expected.begin(), expected.end(), [&](size_t a, size_t b) {
                for (size_t d = ndim; d-- > 0;) {
                    if (pos[a][d] != pos[b][d]) {
                        return pos[a][d] < pos[b][d];
                    }
                }
                return false;
            });
        }
        X.check(nodes == expected, s.name, "() is ", str(s.nodes), " expected ", str(expected));
        X.observe(s.nodes.size());
    }
    static const std::tuple<const char*, const char*, size_t> opposite[] = {{"Left", "Right", 0}, {"Bottom", "Top", 1}, {"Front", "Back", 2}};
    for (auto& o : opposite) {
        for (const char* kind : {"", "Face"}) {
            auto a = faces.find("nodes" + std::string(std::get<0>(o)) + kind);
            auto b = faces.find("nodes" + std::string(std::get<1>(o)) + kind);
            if (ndim == 2) {
                continue;
            }
            for (size_t i = 0; i < a->second.size(); ++i) {
                auto p = pos[a->second[i]], q = pos[b->second[i]];
                p[std::get<2>(o)] = q[std::get<2>(o)];
                X.check(p == q, a->first, "() and ", b->first, "() do not list opposite nodes in the same order (entry ", i, ")");
            }
        }
    }
    X.counts["node sets compared"] += sets.size();
}

template <class M>
void check_periodic(Explorer& X, const M& m, size_t ndim)
{
    A2 coor = m.coor();
    auto pos = lattice(X, coor, m.h(), 1);
    std::array<long, 3> top = {0, 0, 0};
    std::map<std::array<long, 3>, size_t> at;
    for (size_t i = 0; i < pos.size(); ++i) {
        at[pos[i]] = i;
        for (size_t d = 0; d < 3; ++d) {
            top[d] = std::max(top[d], pos[i][d]);
        }
    }
    std::vector<size_t> image(pos.size());
    size_t ndep = 0;
    for (size_t i = 0; i < pos.size(); ++i) {
        auto p = pos[i];
        for (size_t d = 0; d < ndim; ++d) {
            if (p[d] == top[d]) {
                p[d] = 0;
            }
        }
        X.check(at.count(p) == 1, "the periodic image of node ", i, " is not a node of the mesh");
        image[i] = at[p];
        ndep += image[i] != i;
    }
    S2 per = m.nodesPeriodic();
    X.same_shape(per.shape(), std::vector<size_t>{ndep, 2}, "nodesPeriodic()");
    std::vector<int> count(pos.size(), 0);
    for (size_t k = 0; k < ndep; ++k) {
        size_t a = per(k, 0), b = per(k, 1);
        X.check(a < pos.size() && b < pos.size(), "nodesPeriodic(): node numbers");
        X.check(image[b] != b, "nodesPeriodic(): node ", b, " is tied to ", a, " but is not opposite to any node");
        X.check(image[b] == a, "nodesPeriodic(): node ", b, " is tied to ", a, " expected ", image[b]);
        X.check(++count[b] == 1, "nodesPeriodic(): node ", b, " is tied more than once");
    }
    X.check(pos[m.nodesOrigin()] == std::array<long, 3>{0, 0, 0}, "nodesOrigin() is ", m.nodesOrigin());
    // periodic DOFs
    S2 d = m.dofsPeriodic();
    X.same_shape(d.shape(), std::vector<size_t>{pos.size(), ndim}, "dofsPeriodic()");
    std::map<size_t, std::pair<size_t, size_t>> owner;
    size_t mx = 0;
    for (size_t i = 0; i < pos.size(); ++i) {
        for (size_t c = 0; c < ndim; ++c) {
            X.check(d(i, c) == d(image[i], c), "dofsPeriodic(): nodes ", i, " and ", image[i], " are tied but have DOFs ", d(i, c), " and ", d(image[i], c));
            if (image[i] == i) {
                X.check(owner.insert({d(i, c), {i, c}}).second, "dofsPeriodic(): DOF ", d(i, c), " is used for two points");
            }
            mx = std::max(mx, d(i, c));
        }
    }
    X.check(mx + 1 == owner.size(), "dofsPeriodic() is not consecutive: largest is ", mx, " of ", owner.size());
    X.observe(ndep);
    X.observe(mx);
}

#ifdef G02
static int run(Explorer& X)
{
    family2(X, {1.0, 0.1}, X.deep ? 30 : X.thorough ? 20 : 12, X.thorough ? 81 : 27, X.deep ? 240 : X.thorough ? 160 : 60, [&](const auto& m, const std::string& name, size_t) {
        X.run([&]() { return name; }, [&]() { check_nodesets(X, m, nodesets2(m), 2); }, m.nelem() > 1);
    });
    std::vector<size_t> nfx = {1, 2, 3, 4, 6, 9};
    if (X.thorough) {
        nfx = {1, 2, 3, 4, 5, 6, 9, 12, 18, 27};
    }
    family3(X, {1.0}, X.deep ? 10 : X.thorough ? 8 : 6, nfx, X.deep ? 80 : X.thorough ? 60 : 30, [&](const auto& m, const std::string& name, size_t) {
        X.run([&]() { return name; }, [&]() { check_nodesets(X, m, nodesets3(m), 3); }, m.nelem() > 1);
    });
    return X.finish("all sets and aliases (16 in two, over 100 in three dimensions) of all regular and layered meshes up to the stated sizes");
}
#endif

#ifdef G03
static int run(Explorer& X)
{
    family2(X, {1.0, 0.1}, X.deep ? 30 : X.thorough ? 20 : 12, X.thorough ? 81 : 27, X.deep ? 240 : X.thorough ? 160 : 60, [&](const auto& m, const std::string& name, size_t) {
        X.run([&]() { return name; }, [&]() { check_periodic(X, m, 2); }, m.nelem() > 1);
    });
    std::vector<size_t> nfx = {1, 2, 3, 4, 6, 9};
    if (X.thorough) {
        nfx = {1, 2, 3, 4, 5, 6, 9, 12, 18, 27};
    }
    family3(X, {1.0}, X.deep ? 10 : X.thorough ? 8 : 6, nfx, X.deep ? 80 : X.thorough ? 60 : 30, [&](const auto& m, const std::string& name, size_t) {
        X.run([&]() { return name; }, [&]() { check_periodic(X, m, 3); }, m.nelem() > 1);
    });
    return X.finish("all regular and layered meshes up to the stated sizes");
}
#endif

// ---------------------------------------------------------------------------------------- G04, G05

// Rows of blocks in the upper half (middle first), as documented: a row is coarsened by three if its elements stay no
// taller than their distance to the middle, the coarser elements fit the width, and the height is not reached.
struct Row {
    size_t hx, hy, hz;
    int type;
};

static std::vector<Row> layout(size_t nelx, size_t nely, size_t nelz, bool three, size_t nfine)
{
    size_t need = (nely + 1) / 2;
    size_t fine = std::max<size_t>(1, nfine % 2 == 0 ? nfine / 2 + 1 : (nfine + 1) / 2);
    fine = std::min(fine, need);
    std::vector<Row> rows(fine, Row{1, 1, 1, -1});
    size_t total = fine, hx = 1, hy = 1, hz = 1;
    while (total < need) {
        bool small = 3 * hy <= total && total + hy < need;
        if (small && nelx % (3 * hx) == 0) {
            hx *= 3;
            rows.push_back({hx, 2 * hy, hz, 0});
            total += 2 * hy;
            // in three dimensions the next row may directly be coarsened in the other direction
            if (three && total + 2 * hy < need && nelz % (3 * hz) == 0) {
                hz *= 3;
                rows.push_back({hx, 2 * hy, hz, 2});
                total += 2 * hy;
            }
            hy *= 3;
        }
        else if (small && three && nelz % (3 * hz) == 0) {
            hz *= 3;
            rows.push_back({hx, 2 * hy, hz, 2});
            total += 2 * hy;
            hy *= 3;
        }
        else {
            rows.push_back({hx, hy, hz, -1});
            total += hy;
        }
    }
    return rows;
}

template <class T>
std::vector<Row> mirrored(const T& half)
{
    std::vector<Row> r(half.rbegin(), half.rend());
    r.insert(r.end(), half.begin() + 1, half.end());
    return r;
}

#ifdef G04
static int run(Explorer& X)
{
    std::vector<double> hs = {1.0, 0.1, 3e-9, 1e-12, 1e9};
    size_t mx = X.deep ? 54 : X.thorough ? 36 : 18, my = X.deep ? 160 : X.thorough ? 130 : 60;
    std::vector<std::array<size_t, 2>> sizes;
    for (size_t x = 1; x <= mx; ++x) {
        for (size_t y = 1; y <= my; ++y) {
            sizes.push_back({x, y});
        }
    }
    // heights at which the third and fourth level of coarsening appear
    for (size_t y = 27; y <= (X.thorough ? 130 : 96); ++y) {
        if (y > 84 || y % 6 == 0) {
            sizes.push_back({27, y});
            sizes.push_back({54, y});
        }
    }
    for (size_t y = 265; y <= 273; ++y) {
        sizes.push_back({81, y});
    }
    for (double h : hs) {
        for (auto& size : sizes) {
            {
                size_t x = size[0], y = size[1];
                for (size_t nf : {0, 1, 2, 3, 4, 7}) {
                    if ((h != 1.0 && nf > 1) || (extreme(h) && (x > 9 || y > 40))) {
                        continue;
                    }
                    X.run([&]() { return "Quad4::FineLayer(" + std::to_string(x) + "," + std::to_string(y) + "," + number(h) + "," + std::to_string(nf) + ")"; }, [&]() {
                        G::Quad4::FineLayer m(x, y, h, nf);
                        auto rows = mirrored(layout(x, y, 1, false, nf));
                        size_t height = 0, nelem = 0;
                        for (auto& r : rows) {
                            height += r.hy;
                            nelem += (r.type == 0 ? 4 : 1) * x / r.hx;
                        }
                        auto w = m.elemrow_nhx();
                        auto t = m.elemrow_nhy();
                        auto n = m.elemrow_nelem();
                        auto k = m.elemrow_type();
                        std::vector<size_t> nr{rows.size()};
                        X.same_shape(w.shape(), nr, "elemrow_nhx()");
                        X.same_shape(t.shape(), nr, "elemrow_nhy()");
                        X.same_shape(n.shape(), nr, "elemrow_nelem()");
                        X.same_shape(k.shape(), nr, "elemrow_type()");
                        for (size_t i = 0; i < rows.size(); ++i) {
                            X.check(w(i) == rows[i].hx, "elemrow_nhx()(", i, ") is ", w(i), " expected ", rows[i].hx);
                            X.check(t(i) == rows[i].hy, "elemrow_nhy()(", i, ") is ", t(i), " expected ", rows[i].hy);
                            X.check(n(i) == x / rows[i].hx, "elemrow_nelem()(", i, ") is ", n(i), " expected ", x / rows[i].hx);
                            X.check(k(i) == rows[i].type, "elemrow_type()(", i, ") is ", k(i), " expected ", rows[i].type);
                        }
                        X.check(m.nelx() == x, "nelx() is ", m.nelx());
                        X.check(m.nely() == height, "nely() is ", m.nely(), " expected ", height);
                        A2 coor = m.coor();
                        S2 conn = m.conn();
                        meta(X, m, nelem, coor.shape(0), 4, 2, h, G::ElementType::Quad4);
                        tessellation(X, coor, conn, {h * static_cast<double>(x), h * static_cast<double>(height)}, h);
                        // rows of elements, from the bottom, of the true size
                        auto pos = lattice(X, coor, h, 1);
                        size_t e = 0;
                        long y0 = 0;
                        std::set<std::array<long, 8>> lower, upper;
                        for (size_t i = 0; i < rows.size(); ++i) {
                            long hx = static_cast<long>(rows[i].hx), hy = static_cast<long>(rows[i].hy);
                            size_t per = rows[i].type == 0 ? 4 : 1;
                            auto sel = m.elementsLayer(i);
                            X.check(sel.size() == per * n(i), "elementsLayer(", i, ") has ", sel.size(), " elements");
                            for (size_t j = 0; j < n(i); ++j) {
                                double area = 0;
                                for (size_t q = 0; q < per; ++q, ++e) {
                                    X.check(sel(j * per + q) == e, "elementsLayer(", i, ")(", j * per + q, ") is ", sel(j * per + q), " expected ", e);
                                    for (size_t a = 0; a < 4; ++a) {
                                        auto& p = pos[conn(e, a)];
                                        X.check(p[0] >= static_cast<long>(j) * hx && p[0] <= static_cast<long>(j + 1) * hx && p[1] >= y0 && p[1] <= y0 + hy,
                                                "node ", a, " of element ", e, " is outside of block ", j, " of row ", i);
                                        auto& r = pos[conn(e, (a + 1) % 4)];
                                        area += 0.5 * static_cast<double>(p[0] * r[1] - r[0] * p[1]);
                                    }
                                }
                                X.close1(area, static_cast<double>(hx * hy), 1e-9, "area of a block");
                            }
                            y0 += hy;
                        }
                        X.check(e == conn.shape(0), "number of elements");
                        // symmetry about the middle: the mirrored nodes are nodes
                        std::set<std::array<long, 3>> all(pos.begin(), pos.end());
                        for (auto p : pos) {
                            p[1] = static_cast<long>(height) - p[1];
                            X.check(all.count(p) == 1, "the mesh is not symmetric about its middle");
                        }
                        // middle layer
                        auto mid = m.elementsMiddleLayer();
                        X.check(mid.size() == x, "elementsMiddleLayer() has ", mid.size(), " elements");
                        long lo = static_cast<long>((height - 1) / 2);
                        for (size_t j = 0; j < x; ++j) {
                            std::array<long, 4> px = {static_cast<long>(j), static_cast<long>(j) + 1, static_cast<long>(j) + 1, static_cast<long>(j)};
                            std::array<long, 4> py = {lo, lo, lo + 1, lo + 1};
                            for (size_t a = 0; a < 4; ++a) {
                                auto& p = pos[conn(mid(j), a)];
                                X.check(p[0] == px[a] && p[1] == py[a], "elementsMiddleLayer(): element ", mid(j), " is not the square of the middle layer at ", j);
                            }
                        }
                        X.observe_all(t);
                        X.observe_all(w);
                        X.state(X.hash());
                    }, x > 1 && y > 2);
                }
            }
        }
    }
    return X.finish("all widths 1.." + std::to_string(mx) + ", heights 1.." + std::to_string(my) + ", six numbers of fine rows, edge sizes 1 and 0.1 (up to 9x40 also 3e-9, 1e-12 and 1e9); width 27, 54 and 81 also at the heights where the third and fourth level of coarsening appear");
}
#endif

#ifdef G05
static int run(Explorer& X)
{
    std::vector<size_t> xs = {1, 2, 3, 6, 9};
    size_t my = X.deep ? 80 : X.thorough ? 60 : 24;
    if (X.thorough) {
        xs = {1, 2, 3, 4, 5, 6, 9, 12, 18};
    }
    std::vector<std::array<size_t, 3>> sizes;
    for (size_t x : xs) {
        for (size_t z : xs) {
            for (size_t y = 1; y <= my; ++y) {
                sizes.push_back({x, y, z});
            }
        }
    }
    deep3(sizes);
    for (double h : {1.0, 0.1, 3e-9, 1e-12, 1e9}) {
        for (auto& size : sizes) {
            {
                {
                    size_t x = size[0], y = size[1], z = size[2];
                    if (extreme(h) && x + z > 6) {
                        continue;
                    }
                    for (size_t nf : {1, 2, 5}) {
                        if (h != 1.0 && (nf != 1 || y % 5 != 2)) {
                            continue;
                        }
                        X.run([&]() { return "Hex8::FineLayer(" + std::to_string(x) + "," + std::to_string(y) + "," + std::to_string(z) + "," + number(h) + "," + std::to_string(nf) + ")"; }, [&]() {
                            G::Hex8::FineLayer m(x, y, z, h, nf);
                            auto rows = mirrored(layout(x, y, z, true, nf));
                            size_t height = 0, nelem = 0;
                            for (auto& r : rows) {
                                height += r.hy;
                                nelem += (r.type >= 0 ? 4 : 1) * (x / r.hx) * (z / r.hz);
                            }
                            X.check(m.nelx() == x, "nelx() is ", m.nelx());
                            X.check(m.nely() == height, "nely() is ", m.nely(), " expected ", height);
                            X.check(m.nelz() == z, "nelz() is ", m.nelz());
                            A2 coor = m.coor();
                            S2 conn = m.conn();
                            meta(X, m, nelem, coor.shape(0), 8, 3, h, G::ElementType::Hex8);
                            tessellation(X, coor, conn, {h * static_cast<double>(x), h * static_cast<double>(height), h * static_cast<double>(z)}, h);
                            auto pos = lattice(X, coor, h, 1);
                            // layers of elements, from the bottom
                            size_t e = 0;
                            long y0 = 0;
                            for (size_t i = 0; i < rows.size(); ++i) {
                                size_t n = (rows[i].type >= 0 ? 4 : 1) * (x / rows[i].hx) * (z / rows[i].hz);
                                for (size_t q = 0; q < n; ++q, ++e) {
                                    for (size_t a = 0; a < 8; ++a) {
                                        long py = pos[conn(e, a)][1];
                                        X.check(py >= y0 && py <= y0 + static_cast<long>(rows[i].hy), "element ", e, " is not in layer ", i);
                                    }
                                }
                                y0 += static_cast<long>(rows[i].hy);
                            }
                            X.check(e == conn.shape(0), "number of elements");
                            std::set<std::array<long, 3>> all(pos.begin(), pos.end());
                            for (auto p : pos) {
                                p[1] = static_cast<long>(height) - p[1];
                                X.check(all.count(p) == 1, "the mesh is not symmetric about its middle");
                            }
                            auto mid = m.elementsMiddleLayer();
                            X.check(mid.size() == x * z, "elementsMiddleLayer() has ", mid.size(), " elements");
                            long lo = static_cast<long>((height - 1) / 2);
                            std::set<size_t> distinct(mid.begin(), mid.end());
                            X.check(distinct.size() == x * z, "elementsMiddleLayer() contains an element twice");
                            for (auto el : mid) {
                                auto o = pos[conn(el, 0)];
                                static const long d[8][3] = {{0, 0, 0}, {1, 0, 0}, {1, 1, 0}, {0, 1, 0}, {0, 0, 1}, {1, 0, 1}, {1, 1, 1}, {0, 1, 1}};
                                X.check(o[1] == lo, "elementsMiddleLayer(): element ", el, " is not in the middle layer");
                                for (size_t a = 0; a < 8; ++a) {
                                    auto& p = pos[conn(el, a)];
                                    X.check(p[0] - o[0] == d[a][0] && p[1] - o[1] == d[a][1] && p[2] - o[2] == d[a][2], "elementsMiddleLayer(): element ", el,
                                            " is not a cube of the finest size in the local node order");
                                }
                            }
                            for (auto& r : rows) {
                                X.observe(r.hx * 1000 + r.hz);
                                X.observe(r.hy);
                            }
                            X.observe(conn.shape(0));
                            X.state(X.hash());
                        }, y > 2);
                    }
                }
            }
        }
    }
    return X.finish("all layered hexahedral meshes with widths from the list, heights 1.." + std::to_string(my) + ", three numbers of fine layers");
}
#endif

int main(int argc, char** argv)
{
    Explorer X(argc, argv);
    return run(X);
}
