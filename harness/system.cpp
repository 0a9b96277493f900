// S01: whole analyses (mesh, quadrature, assembly, partition, solve) reproduce affine fields and are in equilibrium.
// S02: periodic analyses (tyings, control nodes) of heterogeneous meshes obey the macroscopic average relations.
// S03: histories of an incremental dynamic analysis with reused objects against fresh objects and dense loops.
#include "element.h"
#include "linalg.h"

using namespace vh;
namespace G = GooseFEM::Mesh;
using A6 = xt::xtensor<double, 6>;

struct Mesh {
    std::string name;
    A2 coor;
    S2 conn;
    S2 dofs; // as numbered by the mesh
    S2 ties = S2::from_shape({0, 2}); // periodic pairs (independent, dependent)
    size_t origin = 0;
};

template <class M>
static Mesh from(const std::string& name, const M& m)
{
    return {name, A2(m.coor()), S2(m.conn()), S2(m.dofs()), S2(m.nodesPeriodic()), m.nodesOrigin()};
}

// nodes of the boundary: on a face (edge) that belongs to one element only
static std::vector<size_t> boundary(const S2& conn)
{
    static const size_t q[4][2] = {{0, 1}, {1, 2}, {2, 3}, {3, 0}};
    static const size_t c[6][4] = {{0, 1, 2, 3}, {4, 5, 6, 7}, {0, 1, 5, 4}, {3, 2, 6, 7}, {0, 3, 7, 4}, {1, 2, 6, 5}};
    std::map<std::set<size_t>, size_t> n;
    for (size_t e = 0; e < conn.shape(0); ++e) {
        for (size_t f = 0; f < (conn.shape(1) == 4 ? 4u : 6u); ++f) {
            std::set<size_t> s;
            for (size_t k = 0; k < (conn.shape(1) == 4 ? 2u : 4u); ++k) {
                s.insert(conn(e, conn.shape(1) == 4 ? q[f][k] : c[f][k]));
            }
            n[s]++;
        }
    }
    std::set<size_t> b;
    for (auto& s : n) {
        if (s.second == 1) {
            b.insert(s.first.begin(), s.first.end());
        }
    }
    return std::vector<size_t>(b.begin(), b.end());
}

static std::vector<Mesh> quadmeshes(bool thorough)
{
    std::vector<Mesh> r;
    size_t n = thorough ? 5 : 3;
    for (size_t x = 1; x <= n; ++x) {
        for (size_t y = 1; y <= n; ++y) {
            r.push_back(from("Regular(" + std::to_string(x) + "," + std::to_string(y) + ")", G::Quad4::Regular(x, y)));
        }
    }
    std::vector<std::array<size_t, 3>> fl = {{3, 3, 1}, {3, 9, 1}, {4, 9, 1}, {9, 17, 1}, {6, 12, 3}};
    if (thorough) {
        fl.insert(fl.end(), {{3, 8, 1}, {3, 11, 3}, {9, 21, 5}, {18, 35, 1}, {27, 51, 1}, {1, 7, 1}, {12, 27, 1}});
    }
    for (auto& f : fl) {
        r.push_back(from("FineLayer(" + std::to_string(f[0]) + "," + std::to_string(f[1]) + ",nfine=" + std::to_string(f[2]) + ")",
                         G::Quad4::FineLayer(f[0], f[1], 1.0, f[2])));
    }
    auto add = [&](const std::string& name, G::Stitch& s) {
        r.push_back({name, A2(s.coor()), S2(s.conn()), S2(s.dofs())});
    };
    {
        G::Stitch s;
        G::Quad4::Regular a(2, 2);
        A2 x = a.coor();
        s.push_back(x, a.conn());
        xt::view(x, xt::all(), 0) += 2.0;
        s.push_back(x, a.conn());
        xt::view(x, xt::all(), 1) += 2.0;
        s.push_back(x, a.conn());
        add("stitch of three Regular(2,2) to an L", s);
    }
    {
        G::Stitch s;
        G::Quad4::FineLayer a(3, 9);
        A2 x = a.coor();
        xt::view(x, xt::all(), 0) += 3.0;
        s.push_back(x, a.conn());
        s.push_back(A2(a.coor()), a.conn());
        add("stitch of two FineLayer(3,9)", s);
    }
    {
        G::Vstack s;
        G::Quad4::Regular a(3, 1), b(3, 2);
        s.push_back(a.coor(), a.conn(), a.nodesBottomEdge(), a.nodesTopEdge());
        s.push_back(b.coor(), b.conn(), b.nodesBottomEdge(), b.nodesTopEdge());
        G::Quad4::FineLayer f(9, 9);
        (void)f;
        s.push_back(a.coor(), a.conn(), a.nodesBottomEdge(), a.nodesTopEdge());
        add("stack of Regular(3,1), Regular(3,2), Regular(3,1)", s);
    }
    {
        G::Quad4::Regular a(2, 1);
        G::Quad4::Map::RefineRegular m(a, 2, 3);
        r.push_back(from("refined Regular(2,1)", m.fineMesh()));
    }
    return r;
}

static std::vector<Mesh> hexmeshes(bool thorough)
{
    std::vector<Mesh> r;
    size_t n = thorough ? 3 : 2;
    for (size_t x = 1; x <= n; ++x) {
        for (size_t y = 1; y <= n; ++y) {
            for (size_t z = 1; z <= n; ++z) {
                r.push_back(from("Hex8::Regular(" + std::to_string(x) + "," + std::to_string(y) + "," + std::to_string(z) + ")", G::Hex8::Regular(x, y, z)));
            }
        }
    }
    std::vector<std::array<size_t, 3>> fl = {{3, 9, 3}, {1, 9, 3}};
    if (thorough) {
        fl.insert(fl.end(), {{3, 9, 1}, {3, 17, 3}, {6, 9, 3}});
    }
    for (auto& f : fl) {
        r.push_back(from("Hex8::FineLayer(" + std::to_string(f[0]) + "," + std::to_string(f[1]) + "," + std::to_string(f[2]) + ")", G::Hex8::FineLayer(f[0], f[1], f[2])));
    }
    G::Stitch s;
    G::Hex8::Regular a(1, 2, 1);
    A2 x = a.coor();
    s.push_back(x, a.conn());
    xt::view(x, xt::all(), 2) += 1.0;
    s.push_back(x, a.conn());
    r.push_back({"stitch of two Hex8::Regular(1,2,1)", A2(s.coor()), S2(s.conn()), S2(s.dofs())});
    return r;
}

// move interior nodes (1, 2), shear and stretch everything (3), and renumber nodes and elements (4)
static const char* deformation_name[5] = {"", ", interior nodes moved", ", interior nodes moved differently", ", sheared and stretched", ", nodes and elements renumbered"};

static Mesh deform(const Mesh& in, int kind)
{
    Mesh m = in;
    size_t nd = m.coor.shape(1), N = m.coor.shape(0);
    m.name += deformation_name[kind];
    if (kind == 1 || kind == 2) {
        auto b = boundary(m.conn);
        std::set<size_t> fixed(b.begin(), b.end());
        Lcg g(static_cast<uint64_t>(kind) * 7 + 1);
        for (size_t i = 0; i < N; ++i) {
            for (size_t j = 0; j < nd; ++j) {
                double d = (static_cast<double>(g.below(7)) - 3.0) / (nd == 2 ? 16.0 : 24.0);
                if (!fixed.count(i)) {
                    m.coor(i, j) += d;
                }
            }
        }
    }
    else if (kind == 3) {
        for (size_t i = 0; i < N; ++i) {
            double x = m.coor(i, 0), y = m.coor(i, 1), z = nd == 3 ? m.coor(i, 2) : 0.0;
            m.coor(i, 0) = 1.5 * x + 0.25 * y - 3.0 + 0.125 * z;
            m.coor(i, 1) = -0.375 * x + 0.75 * y + 20.0;
            if (nd == 3) {
                m.coor(i, 2) = 0.5 * z + 0.125 * x;
            }
        }
    }
    else if (kind == 4) {
        std::vector<size_t> p(N), q(m.conn.shape(0));
        Lcg g(N);
        for (size_t i = 0; i < N; ++i) {
            p[i] = i;
        }
        for (size_t i = N; i > 1; --i) {
            std::swap(p[i - 1], p[g.below(i)]);
        }
        for (size_t i = 0; i < q.size(); ++i) {
            q[i] = i;
        }
        for (size_t i = q.size(); i > 1; --i) {
            std::swap(q[i - 1], q[g.below(i)]);
        }
        for (size_t i = 0; i < N; ++i) {
            for (size_t j = 0; j < nd; ++j) {
                m.coor(p[i], j) = in.coor(i, j);
                m.dofs(p[i], j) = in.dofs(i, j);
            }
        }
        for (size_t e = 0; e < q.size(); ++e) {
            for (size_t a = 0; a < m.conn.shape(1); ++a) {
                m.conn(q[e], a) = p[in.conn(e, a)];
            }
        }
        for (auto& t : m.ties) {
            t = p[t];
        }
        m.origin = p[m.origin];
    }
    return m;
}

// volume of the mesh: sum over elements, by an independent rule that is exact
static double volume(const Mesh& m)
{
    size_t nne = m.conn.shape(1), nd = m.coor.shape(1);
    double V = 0.0;
    std::vector<double> x(nne * nd);
    double g = 1.0 / std::sqrt(3.0);
    for (size_t e = 0; e < m.conn.shape(0); ++e) {
        for (size_t a = 0; a < nne; ++a) {
            for (size_t i = 0; i < nd; ++i) {
                x[a * nd + i] = m.coor(m.conn(e, a), i);
            }
        }
        for (size_t q = 0; q < (nd == 2 ? 4u : 8u); ++q) {
            double xi[3] = {q & 1 ? g : -g, q & 2 ? g : -g, q & 4 ? g : -g};
            V += evaluate(nne, nd, x.data(), xi).det;
        }
    }
    return V;
}

// Symmetric (minor and major), positive definite, anisotropic
static std::vector<double> stiffness(size_t td, double factor)
{
    std::vector<double> C(td * td * td * td, 0.0);
    double a[3][3] = {{0.9, 0.4, -0.2}, {0.4, -0.3, 0.5}, {-0.2, 0.5, 0.7}}, b[3][3] = {{0.2, -0.6, 0.1}, {-0.6, 0.8, 0.3}, {0.1, 0.3, -0.4}};
    for (size_t i = 0; i < td; ++i) {
        for (size_t j = 0; j < td; ++j) {
            for (size_t k = 0; k < td; ++k) {
                for (size_t l = 0; l < td; ++l) {
                    double v = 2.0 * (i == j) * (k == l) + 1.0 * ((i == k) * (j == l) + (i == l) * (j == k)) + a[i][j] * a[k][l] + b[i][j] * b[k][l];
                    C[((i * td + j) * td + k) * td + l] = factor * v;
                }
            }
        }
    }
    return C;
}

template <Kind K>
struct Analysis {
    using T = Type<K>;
    static constexpr size_t nne = T::nne, nd = T::ndim, td = T::tdim;
    Mesh m;
    S2 dofs;
    GooseFEM::Vector vec;
    typename T::Quad quad;
    size_t nip, nelem;
    A6 C;
    double thick;
    std::vector<std::vector<double>> Ce; // per element

    Analysis(const Mesh& mesh, const S2& d, const Rule& r, double t, const std::function<double(size_t)>& factor)
        : m(mesh), dofs(d), vec(mesh.conn, d),
          quad(r.isdefault ? T::make(A3(vec.AsElement(mesh.coor)), t) : T::make(A3(vec.AsElement(mesh.coor)), r.xi, r.w, t)), thick(t)
    {
        nip = quad.nip();
        nelem = m.conn.shape(0);
        C = A6::from_shape({nelem, nip, td, td, td, td});
        for (size_t e = 0; e < nelem; ++e) {
            Ce.push_back(stiffness(td, factor(e)));
            for (size_t q = 0; q < nip; ++q) {
                std::copy(Ce[e].begin(), Ce[e].end(), &C(e, q, 0, 0, 0, 0));
            }
        }
    }

    A4 stress(const A2& u) const
    {
        A4 Eps = quad.SymGradN_vector(A3(vec.AsElement(u)));
        A4 Sig = A4::from_shape({nelem, nip, td, td});
        for (size_t e = 0; e < nelem; ++e) {
            for (size_t q = 0; q < nip; ++q) {
                for (size_t ij = 0; ij < td * td; ++ij) {
                    double s = 0.0;
                    for (size_t kl = 0; kl < td * td; ++kl) {
                        s += Ce[e][ij * td * td + kl] * Eps(e, q, kl / td, kl % td);
                    }
                    Sig(e, q, ij / td, ij % td) = s;
                }
            }
        }
        return Sig;
    }

    A3 force(const A4& Sig) const
    {
        return quad.Int_gradN_dot_tensor2_dV(Sig);
    }

    A3 stiff() const
    {
        return quad.Int_gradN_dot_tensor4_dot_gradNT_dV(C);
    }

    // sum per node, directly from the element contributions
    A2 nodesum(const A3& f) const
    {
        A2 r = zeros2(m.coor.shape(0), nd);
        for (size_t e = 0; e < nelem; ++e) {
            for (size_t a = 0; a < nne; ++a) {
                for (size_t i = 0; i < nd; ++i) {
                    r(m.conn(e, a), i) += f(e, a, i);
                }
            }
        }
        return r;
    }
};

// affine fields: basis of all fields
template <size_t nd>
static A2 affine(const A2& x, size_t k)
{
    A2 u = zeros2(x.shape(0), nd);
    for (size_t m = 0; m < x.shape(0); ++m) {
        if (k < nd) {
            u(m, k) = 1.0;
        }
        else {
            u(m, (k - nd) / nd) = x(m, (k - nd) % nd);
        }
    }
    return u;
}

static S2 renumber(const S2& dofs, int kind)
{
    S2 d = dofs;
    size_t n = 0;
    for (auto i : d) {
        n = std::max(n, static_cast<size_t>(i) + 1);
    }
    if (kind == 1) {
        for (auto& i : d) {
            i = n - 1 - i;
        }
    }
    else if (kind == 2) {
        std::vector<size_t> p(n);
        Lcg g(n + 3);
        for (size_t i = 0; i < n; ++i) {
            p[i] = i;
        }
        for (size_t i = n; i > 1; --i) {
            std::swap(p[i - 1], p[g.below(i)]);
        }
        for (auto& i : d) {
            i = p[i];
        }
    }
    else if (kind == 3) { // with gaps, closed again by the library
        for (auto& i : d) {
            i = 5 * i + 2;
        }
        d = G::renumber(d);
    }
    return d;
}

// does fixing these components suppress all rigid motions?
template <size_t nd>
static bool supported(const A2& x, const std::vector<std::pair<size_t, size_t>>& fixed)
{
    size_t nr = nd == 2 ? 3 : 6;
    Dense R = zeros2(nr, nr);
    for (auto& f : fixed) {
        std::vector<double> row(nr, 0.0);
        row[f.second] = 1.0;
        const size_t ax[3][2] = {{0, 1}, {1, 2}, {2, 0}};
        for (size_t k = 0; k < nr - nd; ++k) {
            if (f.second == ax[k][0]) {
                row[nd + k] = -x(f.first, ax[k][1]);
            }
            if (f.second == ax[k][1]) {
                row[nd + k] = x(f.first, ax[k][0]);
            }
        }
        for (size_t i = 0; i < nr; ++i) {
            for (size_t j = 0; j < nr; ++j) {
                R(i, j) += row[i] * row[j];
            }
        }
    }
    std::vector<double> b(nr, 1.0), y;
    return dense_solve(R, b, y);
}

static const double TOL = 1e-9;

template <Kind K, class Mat, class Solver>
static void solves(Explorer& X, const Analysis<K>& a, Mat& A, Solver& S, const S1& iip, const A2& f, const A2& u, const std::string& what)
{
    constexpr size_t nd = Type<K>::ndim;
    GooseFEM::VectorPartitioned vp(a.m.conn, a.dofs, iip);
    std::set<size_t> P(iip.begin(), iip.end());
    A2 start = u, fext = f, expect = f;
    for (size_t i = 0; i < u.shape(0); ++i) {
        for (size_t j = 0; j < nd; ++j) {
            if (P.count(a.dofs(i, j))) {
                fext(i, j) = 1e7; // what is given for reactions is irrelevant
            }
            else {
                start(i, j) = -1e7; // what is given for unknowns is irrelevant
            }
        }
    }
    A2 x = start;
    S.solve(A, fext, x);
    X.close(x, u, 1e-7, what + ": solved displacement");
    A2 y = S.Solve(A, fext, start);
    X.close(y, u, 1e-7, what + ": Solve");
    A1 xd = vp.AsDofs(start), fd = vp.AsDofs(fext);
    S.solve(A, fd, xd);
    X.close(A2(vp.AsNode(xd)), u, 1e-7, what + ": solved DOFs");
    A2 r = fext;
    A.reaction(u, r);
    X.close(r, f, 1e-7, what + ": reaction");
    A2 r2 = A.Reaction(y, fext);
    X.close(r2, f, 1e-6, what + ": Reaction of the solution");
}

template <Kind K>
static void patch(Explorer& X, const Mesh& mesh, const Rule& rule, int numbering, bool all_supports)
{
    constexpr size_t nd = Type<K>::ndim, td = Type<K>::tdim;
    auto name = [&]() { return std::string(Type<K>::name()) + " " + mesh.name + ", rule " + rule.name + ", numbering " + std::to_string(numbering); };
    X.run(name, [&]() {
        double thick = K == Kind::planar ? 1.5 : 1.0;
        S2 dofs = renumber(mesh.dofs, numbering);
        Analysis<K> a(mesh, dofs, rule, thick, [](size_t) { return 1.0; });
        double V = volume(mesh) * thick;
        auto bnd = boundary(mesh.conn);
        std::set<size_t> B(bnd.begin(), bnd.end());
        size_t N = mesh.coor.shape(0);
        A1 dv = A1::from_shape({1});
        dv(0) = xt::sum(a.quad.dV())();
        X.close1(dv(0), V, TOL, "volume");
        A3 Ke = a.stiff();
        GooseFEM::Matrix Kf(mesh.conn, dofs);
        Kf.assemble(Ke);
        std::vector<A2> us, fs;
        for (size_t k = 0; k < nd + nd * nd; ++k) {
            A2 u = affine<nd>(mesh.coor, k);
            A4 Sig = a.stress(u);
            A2 f = a.nodesum(a.force(Sig));
            X.close(A2(a.vec.AssembleNode(a.force(Sig))), f, TOL, "assembled internal force");
            X.close(A2(Kf.Dot(u)), f, TOL, "stiffness times affine field is the internal force");
            // constant stress
            std::vector<double> sig(td * td, 0.0);
            for (size_t ij = 0; ij < td * td; ++ij) {
                if (k >= nd) {
                    size_t r = (k - nd) / nd, c = (k - nd) % nd;
                    sig[ij] = 0.5 * (a.Ce[0][ij * td * td + r * td + c] + a.Ce[0][ij * td * td + c * td + r]);
                }
                for (size_t e = 0; e < a.nelem; ++e) {
                    for (size_t q = 0; q < a.nip; ++q) {
                        X.close1(Sig(e, q, ij / td, ij % td), sig[ij], TOL, "stress of an affine field");
                    }
                }
            }
            // interior in equilibrium, resultants, virial
            double tot[3] = {0, 0, 0}, vir[3][3] = {{0}};
            for (size_t i = 0; i < N; ++i) {
                for (size_t j = 0; j < nd; ++j) {
                    if (!B.count(i)) {
                        X.close1(f(i, j), 0.0, TOL, "force on an interior node");
                    }
                    tot[j] += f(i, j);
                    for (size_t l = 0; l < nd; ++l) {
                        vir[j][l] += f(i, j) * mesh.coor(i, l);
                    }
                }
            }
            for (size_t j = 0; j < nd; ++j) {
                X.close1(tot[j], 0.0, 1e-8, "resultant force");
                for (size_t l = 0; l < nd; ++l) {
                    X.close1(vir[j][l], sig[j * td + l] * V, 1e-7, "virial of the boundary forces");
                }
            }
            us.push_back(u);
            fs.push_back(f);
        }
        // rigid rotations
        for (size_t r = 0; r < nd; ++r) {
            for (size_t c = 0; c < r; ++c) {
                A2 f = Kf.Dot(A2(us[nd + r * nd + c] - us[nd + c * nd + r]));
                for (auto v : f) {
                    X.close1(v, 0.0, 1e-8, "force of a rigid rotation");
                }
            }
        }
        // sets of prescribed DOFs
        std::vector<std::vector<std::pair<size_t, size_t>>> sets(4);
        for (auto i : bnd) {
            for (size_t j = 0; j < nd; ++j) {
                sets[0].push_back({i, j});
                if (j == i % nd) {
                    sets[1].push_back({i, j});
                }
            }
        }
        for (size_t i = N; i-- > 0;) {
            for (size_t j = 0; j < nd; ++j) {
                if (mesh.coor(i, 1) == xt::amin(xt::view(mesh.coor, xt::all(), 1))()) {
                    sets[2].push_back({i, nd - 1 - j});
                }
                if ((i * nd + j) % 3 == 0) {
                    sets[3].push_back({i, j});
                }
            }
        }
        {
            Lcg g(N);
            for (size_t i = sets[0].size(); i > 1; --i) {
                std::swap(sets[0][i - 1], sets[0][g.below(i)]);
            }
        }
        if (all_supports) {
            for (size_t mask = 1; mask < (size_t(1) << (N * nd)); ++mask) {
                std::vector<std::pair<size_t, size_t>> s;
                for (size_t b = 0; b < N * nd; ++b) {
                    if (mask >> b & 1) {
                        s.push_back({b / nd, b % nd});
                    }
                }
                if (s.size() >= (nd == 2 ? 3u : 6u)) {
                    if (mask % 2) {
                        std::reverse(s.begin(), s.end());
                    }
                    sets.push_back(s);
                }
            }
        }
        GooseFEM::MatrixPartitionedSolver<> shared; // one solver for all matrices in turn
        for (auto& s : sets) {
            if (s.size() == N * nd || !supported<nd>(mesh.coor, s)) {
                ++X.counts["not supported"];
                continue;
            }
            ++X.counts["solved"];
            X.beat();
            S1 iip = S1::from_shape({s.size()});
            for (size_t i = 0; i < s.size(); ++i) {
                iip(i) = dofs(s[i].first, s[i].second);
            }
            GooseFEM::MatrixPartitioned A(mesh.conn, dofs, iip);
            A.assemble(Ke);
            // all affine fields at once (generic combination), and in the small sets each one
            A2 u = zeros2(N, nd), f = zeros2(N, nd);
            for (size_t k = 0; k < us.size(); ++k) {
                double c = 0.25 + 0.125 * static_cast<double>((k * 5) % 7);
                u += c * us[k];
                f += c * fs[k];
            }
            solves<K>(X, a, A, shared, iip, f, u, "affine field");
            if (&s < sets.data() + 4 || X.thorough) {
                for (size_t k = 0; k < us.size(); ++k) {
                    solves<K>(X, a, A, shared, iip, fs[k], us[k], "affine field " + std::to_string(k));
                }
            }
            ++X.transitions;
        }
        // consistent and lumped mass: gravity gives every node the same acceleration
        Rule nodal = rules(nd)[2];
        X.check(nodal.name == "Nodal", "rule");
        Analysis<K> n(mesh, dofs, nodal, thick, [](size_t) { return 1.0; });
        A2 rho = A2::from_shape({n.nelem, n.nip});
        A3 body = A3::from_shape({n.nelem, n.nip, nd});
        double total = 0.0, grav[3] = {0.5, -9.0, 2.0};
        for (size_t e = 0; e < n.nelem; ++e) {
            for (size_t q = 0; q < n.nip; ++q) {
                rho(e, q) = 1.0 + 0.5 * static_cast<double>(e % 3);
                total += rho(e, q) * n.quad.dV()(e, q);
                for (size_t i = 0; i < nd; ++i) {
                    body(e, q, i) = rho(e, q) * grav[i];
                }
            }
        }
        A3 Me = n.quad.Int_N_scalar_NT_dV(rho);
        A2 fg = n.vec.AssembleNode(A3(n.quad.Int_N_vector_dV(body)));
        A2 acc = A2::from_shape({N, nd});
        for (size_t i = 0; i < N; ++i) {
            for (size_t j = 0; j < nd; ++j) {
                acc(i, j) = grav[j];
            }
        }
        double sum[3] = {0, 0, 0};
        for (size_t i = 0; i < N; ++i) {
            for (size_t j = 0; j < nd; ++j) {
                sum[j] += fg(i, j);
            }
        }
        for (size_t j = 0; j < nd; ++j) {
            X.close1(sum[j], total * grav[j], TOL, "total weight");
        }
        GooseFEM::MatrixDiagonal M(mesh.conn, dofs);
        M.assemble(Me);
        X.close(A2(M.Solve(fg)), acc, TOL, "acceleration by lumped mass");
        X.close(A2(M.Dot(acc)), fg, TOL, "lumped mass times acceleration");
        {
            S1 iip = S1::from_shape({bnd.size()});
            for (size_t i = 0; i < bnd.size(); ++i) {
                iip(i) = dofs(bnd[i], i % nd);
            }
            GooseFEM::MatrixDiagonalPartitioned MP(mesh.conn, dofs, iip);
            MP.assemble(Me);
            A2 x = acc, b = fg;
            std::set<size_t> P(iip.begin(), iip.end());
            for (size_t i = 0; i < N; ++i) {
                for (size_t j = 0; j < nd; ++j) {
                    if (P.count(dofs(i, j))) {
                        b(i, j) = 1e7;
                    }
                    else {
                        x(i, j) = 1e7;
                    }
                }
            }
            MP.solve(b, x);
            X.close(x, acc, TOL, "acceleration by partitioned lumped mass");
            MP.reaction(x, b);
            X.close(b, fg, TOL, "reaction of the partitioned lumped mass");
        }
        // dynamic stiffness (no partition)
        A2 r2 = A2::from_shape({a.nelem, a.nip});
        r2.fill(2.0);
        A3 De = Ke + A3(a.quad.Int_N_scalar_NT_dV(r2));
        GooseFEM::Matrix D(mesh.conn, dofs);
        D.assemble(De);
        GooseFEM::MatrixSolver<> DS;
        for (size_t k = 0; k < us.size(); ++k) {
            A2 b = fs[k];
            A3 bod = A3::from_shape({a.nelem, a.nip, nd});
            A3 ue = a.quad.InterpQuad_vector(A3(a.vec.AsElement(us[k])));
            for (size_t i = 0; i < bod.size(); ++i) {
                bod.data()[i] = 2.0 * ue.data()[i];
            }
            b += A2(a.vec.AssembleNode(A3(a.quad.Int_N_vector_dV(bod))));
            X.close(A2(D.Dot(us[k])), b, TOL, "dynamic stiffness times affine field");
            X.close(A2(DS.Solve(D, b)), us[k], 1e-7, "solution of the dynamic stiffness");
        }
    }, mesh.conn.shape(0) > 1);
}

template <Kind K>
static void patches(Explorer& X, const std::vector<Mesh>& meshes)
{
    constexpr size_t nd = Type<K>::ndim;
    auto rs = rules(nd);
    for (auto& m0 : meshes) {
        for (int d = 0; d < 5; ++d) {
            Mesh m = deform(m0, d);
            for (auto& r : rs) {
                // rules for which internal forces of a constant stress are exact and the stiffness has full rank
                bool exact = r.exact >= 2 || (r.name == "Nodal" && (nd == 2 || d == 0));
                bool rank = r.name != "MidPoint" && r.name != "skew";
                if (!exact || !rank) {
                    continue;
                }
                for (int n = 0; n < 4; ++n) {
                    bool tiny = m.coor.shape(0) <= (nd == 2 ? 4u : 0u) && (X.thorough || (r.isdefault && (d == 0 || d == 3)));
                    if (!X.thorough && m.coor.shape(0) > 30 && (n + d) % 2 == 0 && d > 0) {
                        continue;
                    }
                    patch<K>(X, m, r, n, tiny);
                }
            }
        }
    }
}

static int s01(Explorer& X)
{
    auto q = quadmeshes(X.thorough), h = hexmeshes(X.thorough);
    patches<Kind::quad4>(X, q);
    patches<Kind::planar>(X, q);
    patches<Kind::hex8>(X, h);
    return X.finish("all regular meshes of up to " + std::string(X.thorough ? "5x5 and 3x3x3" : "3x3 and 2x2x2") + ", layered, stitched, stacked and refined meshes; 5 deformations and node orders, 4 numberings, all rules of full rank, a basis of all affine fields, 4 sets of prescribed DOFs (all sets for one element)");
}

// ---------------------------------------------------------------------------------------- S02
template <Kind K>
static void periodic(Explorer& X, const Mesh& mesh, int numbering, int material, size_t unknown, int order)
{
    constexpr size_t nd = Type<K>::ndim, nne = Type<K>::nne;
    auto name = [&]() {
        return std::string(Type<K>::name()) + " " + mesh.name + ", numbering " + std::to_string(numbering) + ", material " + std::to_string(material) +
               ", unknown macroscopic components " + std::to_string(unknown) + ", order " + std::to_string(order);
    };
    X.run(name, [&]() {
        const double tol = 1e-7;
        S2 dofs = renumber(mesh.dofs, numbering);
        size_t N = mesh.coor.shape(0), D = N * nd, nt = mesh.ties.shape(0);
        auto factor = [&](size_t e) { return material == 0 ? 1.0 : material == 1 ? (e % 2 ? 8.0 : 1.0) : 1.0 + static_cast<double>((e * 7) % 4); };
        double thick = K == Kind::planar ? 0.5 : 1.0;
        Rule rule = rules(nd)[0];
        GooseFEM::Tyings::Control control(mesh.coor, dofs);
        A2 coor2 = control.coor();
        S2 dofs2 = control.dofs(), cd = control.controlDofs();
        X.check(coor2.shape(0) == N + nd && cd.shape(0) == nd && cd.shape(1) == nd, "number of control nodes");
        // prescribed: known components and the origin (in some order)
        std::vector<size_t> p;
        for (size_t i = 0; i < nd; ++i) {
            for (size_t j = 0; j < nd; ++j) {
                if (!(unknown >> (i * nd + j) & 1)) {
                    p.push_back(cd(i, j));
                }
            }
            p.push_back(dofs(mesh.origin, i));
        }
        if (order == 1) {
            std::reverse(p.begin(), p.end());
        }
        else if (order == 2) {
            std::sort(p.begin(), p.end());
        }
        S1 iip = sarr(p);
        GooseFEM::Tyings::Periodic P(coor2, dofs2, cd, mesh.ties, iip);
        S2 pd = P.dofs();
        Analysis<K> a(mesh, dofs, rule, thick, factor);
        A3 Ke = a.stiff();
        GooseFEM::MatrixPartitionedTyings KT(mesh.conn, pd, P.Cdu(), P.Cdp());
        GooseFEM::VectorPartitionedTyings VT(mesh.conn, pd, P.Cdu(), P.Cdp(), P.Cdi());
        GooseFEM::MatrixPartitionedTyingsSolver<> S;
        KT.assemble(Ke);
        // definition, without the library: u = (independent nodal values, gradient H) with u_dep = u_ind + H (x_dep - x_ind)
        std::vector<long> owner(N, -1);
        for (size_t t = 0; t < nt; ++t) {
            X.check(owner[mesh.ties(t, 1)] == -1, "a node is dependent twice");
            owner[mesh.ties(t, 1)] = static_cast<long>(mesh.ties(t, 0));
        }
        std::vector<long> col(D, -1);
        size_t n = 0;
        for (size_t m = 0; m < N; ++m) {
            if (owner[m] < 0) {
                for (size_t i = 0; i < nd; ++i) {
                    col[m * nd + i] = static_cast<long>(n++);
                }
            }
        }
        size_t nH = n;
        n += nd * nd;
        Dense T = zeros2(D, n);
        for (size_t m = 0; m < N; ++m) {
            for (size_t i = 0; i < nd; ++i) {
                if (owner[m] < 0) {
                    T(m * nd + i, static_cast<size_t>(col[m * nd + i])) = 1.0;
                }
                else {
                    size_t o = static_cast<size_t>(owner[m]);
                    X.check(owner[o] < 0, "an independent node is dependent");
                    T(m * nd + i, static_cast<size_t>(col[o * nd + i])) = 1.0;
                    for (size_t j = 0; j < nd; ++j) {
                        T(m * nd + i, nH + i * nd + j) = mesh.coor(m, j) - mesh.coor(o, j);
                    }
                }
            }
        }
        Dense A = zeros2(D, D), AT = zeros2(D, n), R = zeros2(n, n);
        for (size_t e = 0; e < a.nelem; ++e) {
            for (size_t r = 0; r < nne * nd; ++r) {
                for (size_t c = 0; c < nne * nd; ++c) {
                    A(mesh.conn(e, r / nd) * nd + r % nd, mesh.conn(e, c / nd) * nd + c % nd) += Ke(e, r, c);
                }
            }
        }
        for (size_t i = 0; i < D; ++i) {
            for (size_t k = 0; k < D; ++k) {
                if (A(i, k) != 0.0) {
                    for (size_t j = 0; j < n; ++j) {
                        AT(i, j) += A(i, k) * T(k, j);
                    }
                }
            }
        }
        for (size_t k = 0; k < D; ++k) {
            for (size_t i = 0; i < n; ++i) {
                if (T(k, i) != 0.0) {
                    for (size_t j = 0; j < n; ++j) {
                        R(i, j) += T(k, i) * AT(k, j);
                    }
                }
            }
        }
        std::vector<int> fixed(n, 0);
        for (size_t i = 0; i < nd; ++i) {
            fixed[static_cast<size_t>(col[mesh.origin * nd + i])] = 1;
            for (size_t j = 0; j < nd; ++j) {
                fixed[nH + i * nd + j] = !(unknown >> (i * nd + j) & 1);
            }
        }
        double V = volume(mesh) * thick;
        // periodic numbering by the library (second, independent route) is available for ties that are its own
        GooseFEM::Matrix full(mesh.conn, dofs);
        full.assemble(Ke);
        A3 gradmass;
        const size_t mixed = nd * nd, bodies = mixed + 4;
        for (size_t load = 0; load <= bodies; ++load) {
            X.beat();
            double H[9], Q[9];
            bool all = load == mixed || load == bodies;
            for (size_t k = 0; k < nd * nd; ++k) {
                H[k] = all ? 0.25 * static_cast<double>(k + 1) - 0.5 : (k == load ? 1.0 : 0.0);
                Q[k] = all ? 1.0 - 0.125 * static_cast<double>(k) : (k == load ? 1.0 : 0.0); // macroscopic stress, where H is unknown
            }
            double shift[3] = {0.5, -0.25, 1.0};
            // body forces: on dependent nodes, on independent nodes, on one dependent node, on all
            std::vector<double> g(D, 0.0);
            if (load > mixed) {
                for (size_t i = 0; i < nd; ++i) {
                    shift[i] = load == bodies ? shift[i] : 0.0;
                }
                bool one = false;
                for (size_t m = 0; m < N; ++m) {
                    bool dep = owner[m] >= 0;
                    if (load == bodies || (load == mixed + 2 ? !dep : dep && !(load == mixed + 3 && one))) {
                        one = true;
                        for (size_t i = 0; i < nd; ++i) {
                            g[m * nd + i] = static_cast<double>((m * 3 + i * 5) % 7) - 2.5;
                        }
                    }
                }
            }
            // reference
            std::vector<double> y(n, 0.0), rhs, sol;
            std::vector<size_t> un;
            for (size_t i = 0; i < n; ++i) {
                if (!fixed[i]) {
                    un.push_back(i);
                }
            }
            for (size_t k = 0; k < nd * nd; ++k) {
                if (fixed[nH + k]) {
                    y[nH + k] = H[k];
                }
            }
            for (size_t i = 0; i < nd; ++i) {
                y[static_cast<size_t>(col[mesh.origin * nd + i])] = shift[i];
            }
            Dense Ruu = zeros2(un.size(), un.size());
            for (size_t i = 0; i < un.size(); ++i) {
                double b = un[i] >= nH ? Q[un[i] - nH] * V : 0.0;
                for (size_t k = 0; k < D && load > mixed; ++k) {
                    b += T(k, un[i]) * g[k];
                }
                for (size_t j = 0; j < n; ++j) {
                    if (fixed[j]) {
                        b -= R(un[i], j) * y[j];
                    }
                }
                rhs.push_back(b);
                for (size_t j = 0; j < un.size(); ++j) {
                    Ruu(i, j) = R(un[i], un[j]);
                }
            }
            if (un.empty()) {
                ++X.counts["nothing unknown"];
                return;
            }
            X.check(dense_solve(Ruu, rhs, sol), "harness: singular reference system");
            ++X.counts["solved"];
            for (size_t i = 0; i < un.size(); ++i) {
                y[un[i]] = sol[i];
            }
            std::vector<double> ur = matvec(T, y);
            // tied system
            A2 u = zeros2(N + nd, nd), f = zeros2(N + nd, nd), ex = zeros2(N + nd, nd);
            u.fill(1e5);
            for (size_t i = 0; i < nd; ++i) {
                u(mesh.origin, i) = shift[i];
                f(mesh.origin, i) = 77.0; // irrelevant
            }
            auto cn = control.controlNodes();
            for (size_t i = 0; i < nd; ++i) {
                for (size_t j = 0; j < nd; ++j) {
                    // the position in nodal storage that holds this control DOF
                    for (size_t m = 0; m < N + nd; ++m) {
                        for (size_t k = 0; k < nd; ++k) {
                            if (dofs2(m, k) == cd(i, j)) {
                                X.check(m == cn(i) || m == cn(j), "control DOF is not on a control node");
                                ex(m, k) = y[nH + i * nd + j];
                                if (fixed[nH + i * nd + j]) {
                                    u(m, k) = H[i * nd + j];
                                    f(m, k) = -55.0; // irrelevant
                                }
                                else {
                                    f(m, k) = Q[i * nd + j] * V;
                                }
                            }
                        }
                    }
                }
            }
            for (size_t m = 0; m < N; ++m) {
                for (size_t i = 0; i < nd; ++i) {
                    ex(m, i) = ur[m * nd + i];
                }
            }
            for (size_t m = 0; m < N; ++m) {
                for (size_t i = 0; i < nd; ++i) {
                    f(m, i) += g[m * nd + i];
                }
            }
            A2 v = S.Solve(KT, f, u);
            X.close(v, ex, tol, "displacement of the tied system");
            S.solve(KT, f, u);
            X.close(u, ex, tol, "solve of the tied system");
            if (load > mixed) {
                ++X.counts["body forces"];
                ++X.transitions;
                continue;
            }
            A2 un2 = xt::view(u, xt::range(0, N), xt::all());
            // average gradient and stress
            A4 grad = a.quad.GradN_vector(A3(a.vec.AsElement(un2)));
            A4 Sig = a.stress(un2);
            double G[9] = {0}, Sm[9] = {0}, work = 0.0, tdim = static_cast<double>(Type<K>::tdim);
            (void)tdim;
            auto dV = a.quad.dV();
            for (size_t e = 0; e < a.nelem; ++e) {
                for (size_t q = 0; q < a.nip; ++q) {
                    for (size_t i = 0; i < Type<K>::tdim; ++i) {
                        for (size_t j = 0; j < Type<K>::tdim; ++j) {
                            work += Sig(e, q, i, j) * grad(e, q, i, j) * dV(e, q);
                            if (i < nd && j < nd) {
                                G[j * nd + i] += grad(e, q, i, j) * dV(e, q); // derivative first
                                Sm[i * nd + j] += Sig(e, q, i, j) * dV(e, q);
                            }
                        }
                    }
                }
            }
            double power = 0.0;
            for (size_t i = 0; i < nd; ++i) {
                for (size_t j = 0; j < nd; ++j) {
                    double Hij = y[nH + i * nd + j];
                    X.close1(G[i * nd + j] / V, Hij, tol, "average gradient", i * nd + j);
                    power += Sm[i * nd + j] * Hij;
                    if (!fixed[nH + i * nd + j]) {
                        X.close1(Sm[i * nd + j] / V, Q[i * nd + j], 1e-6, "average stress where the gradient is unknown", i * nd + j);
                    }
                    if (material == 0 && unknown == 0) {
                        double h = 0.0;
                        for (size_t kl = 0; kl < nd * nd; ++kl) {
                            h += a.Ce[0][((i * Type<K>::tdim + j) * Type<K>::tdim + kl / nd) * Type<K>::tdim + kl % nd] * H[kl];
                        }
                        X.close1(Sm[i * nd + j] / V, h, tol, "average stress of a homogeneous medium", i * nd + j);
                    }
                }
            }
            X.close1(work, power, 1e-6, "internal work against macroscopic work");
            if (material == 0 && unknown == 0) { // homogeneous: affine
                for (size_t m = 0; m < N; ++m) {
                    for (size_t i = 0; i < nd; ++i) {
                        double w = shift[i];
                        for (size_t j = 0; j < nd; ++j) {
                            w += H[i * nd + j] * (mesh.coor(m, j) - mesh.coor(mesh.origin, j));
                        }
                        X.close1(u(m, i), w, tol, "displacement of a homogeneous medium");
                    }
                }
            }
            // forces condensed by the tyings: zero on free nodes, the average stress on control DOFs
            A2 fint = zeros2(N + nd, nd);
            xt::view(fint, xt::range(0, N), xt::all()) = a.vec.AssembleNode(a.force(Sig));
            X.close(A2(full.Dot(un2)), A2(xt::view(fint, xt::range(0, N), xt::all())), 1e-6, "internal force");
            A1 fi = A1::from_shape({P.nni()});
            fi.fill(G1);
            VT.asDofs_i(fint, fi, true);
            S2 pc = P.control();
            std::map<size_t, double> expect;
            for (size_t i = 0; i < nd; ++i) {
                for (size_t j = 0; j < nd; ++j) {
                    expect[pc(i, j)] = Sm[i * nd + j];
                }
            }
            for (size_t k = 0; k < P.nni(); ++k) {
                X.close1(fi(k), expect.count(k) ? expect[k] : 0.0, 1e-6, "condensed force", k);
            }
            // second route: fluctuations on a periodic numbering made by hand
            if (unknown == 0) {
                S2 per = dofs;
                for (size_t t = 0; t < nt; ++t) {
                    for (size_t i = 0; i < nd; ++i) {
                        per(mesh.ties(t, 1), i) = per(mesh.ties(t, 0), i);
                    }
                }
                per = G::renumber(per);
                S1 fix = S1::from_shape({nd});
                for (size_t i = 0; i < nd; ++i) {
                    fix(i) = per(mesh.origin, i);
                }
                GooseFEM::VectorPartitioned vp(mesh.conn, per, fix);
                if (vp.nnu() > 0) {
                    GooseFEM::MatrixPartitioned Kp(mesh.conn, per, fix);
                    GooseFEM::MatrixPartitionedSolver<> Sp;
                    Kp.assemble(Ke);
                    A2 ua = zeros2(N, nd);
                    for (size_t m = 0; m < N; ++m) {
                        for (size_t i = 0; i < nd; ++i) {
                            ua(m, i) = shift[i];
                            for (size_t j = 0; j < nd; ++j) {
                                ua(m, i) += H[i * nd + j] * (mesh.coor(m, j) - mesh.coor(mesh.origin, j));
                            }
                        }
                    }
                    A2 res = -vp.AssembleNode(a.force(a.stress(ua)));
                    A2 du = Sp.Solve(Kp, res, zeros2(N, nd));
                    X.close(A2(ua + du), un2, 1e-6, "fluctuation on a periodic numbering");
                }
            }
            ++X.transitions;
        }
    }, mesh.conn.shape(0) > 1);
}

template <Kind K>
static void periodics(Explorer& X, const std::vector<Mesh>& meshes)
{
    constexpr size_t nd = Type<K>::ndim;
    for (auto& m0 : meshes) {
        for (int d = 0; d < 5; ++d) {
            Mesh m = deform(m0, d);
            for (int mat = 0; mat < 3; ++mat) {
                for (int n = 0; n < 4; ++n) {
                    // all sets of unknown macroscopic components (not both of a symmetric pair: rotation)
                    for (size_t unknown = 0; unknown < (size_t(1) << (nd * nd)); ++unknown) {
                        bool ok = true;
                        for (size_t i = 0; i < nd; ++i) {
                            for (size_t j = 0; j < i; ++j) {
                                ok = ok && !((unknown >> (i * nd + j) & 1) && (unknown >> (j * nd + i) & 1));
                            }
                        }
                        if (!ok) {
                            continue;
                        }
                        bool small = m.coor.shape(0) <= (nd == 2 ? 9u : 8u);
                        if (unknown && !(small && (nd == 2 || X.thorough) && (d == 0 || d == 3 || X.thorough)) && unknown % 7 != static_cast<size_t>(n + d) % 7) {
                            continue;
                        }
                        if (!small && !X.thorough && (unknown + static_cast<size_t>(n + d + mat)) % 3 != 0) {
                            continue;
                        }
                        if (nd == 3 && unknown && !X.thorough && unknown % 31 != static_cast<size_t>(n + d)) {
                            continue;
                        }
                        periodic<K>(X, m, n, mat, unknown, static_cast<int>((unknown + static_cast<size_t>(n)) % 3));
                    }
                }
            }
        }
    }
}

static int s02(Explorer& X)
{
    std::vector<Mesh> q, h;
    size_t n = X.thorough ? 4 : 3;
    for (size_t x = 1; x <= n; ++x) {
        for (size_t y = 1; y <= n; ++y) {
            q.push_back(from("Regular(" + std::to_string(x) + "," + std::to_string(y) + ")", G::Quad4::Regular(x, y)));
        }
    }
    q.push_back(from("FineLayer(3,9)", G::Quad4::FineLayer(3, 9)));
    q.push_back(from("FineLayer(4,3)", G::Quad4::FineLayer(4, 3)));
    if (X.thorough) {
        q.push_back(from("FineLayer(9,9)", G::Quad4::FineLayer(9, 9)));
        q.push_back(from("FineLayer(6,13,nfine=3)", G::Quad4::FineLayer(6, 13, 1.0, 3)));
    }
    size_t n3 = 2;
    for (size_t x = 1; x <= n3; ++x) {
        for (size_t y = 1; y <= n3; ++y) {
            for (size_t z = 1; z <= n3; ++z) {
                h.push_back(from("Hex8::Regular(" + std::to_string(x) + "," + std::to_string(y) + "," + std::to_string(z) + ")", G::Hex8::Regular(x, y, z)));
            }
        }
    }
    periodics<Kind::quad4>(X, q);
    periodics<Kind::planar>(X, q);
    periodics<Kind::hex8>(X, h);
    return X.finish("regular meshes of up to " + std::to_string(n) + " elements per direction and layered meshes, 5 deformations and node orders, 3 stiffness patterns, 4 numberings, sets of unknown macroscopic components, all basis loads and a mixture, body forces on dependent, independent, single and all nodes");
}
#ifdef S03

// ---------------------------------------------------------------- histories of an analysis with reused objects

enum { STEP, HALF, REVERSE, MOVE, BACK, MATERIAL, DENSITY, LOAD, UNLOAD, DUPLICATE, SCALE, NUDGE, NOPS };
static const char* opname[NOPS] = {"step", "half-step", "reverse", "move-mesh", "move-mesh-back", "change-material", "change-density", "load", "unload", "copy-all", "scale-mass", "nudge"};

static std::string word(const std::vector<size_t>& ops)
{
    std::string s = "[";
    for (size_t i = 0; i < ops.size(); ++i) {
        s += (i ? " " : "") + std::string(opname[ops[i]]);
    }
    return s + "]";
}

struct Setup {
    Mesh m;
    S2 dofs;
    S1 iip;
    std::string name;
};

static double load(size_t d)
{
    return 0.0625 * (static_cast<double>((d * 5) % 7) - 3.0);
}

static double push(size_t d)
{
    return 0.125 * (static_cast<double>((d * 3) % 5) - 2.0);
}

// The program a user writes: all objects are made once and reused
template <Kind K>
struct Program {
    using T = Type<K>;
    static constexpr size_t nne = T::nne, nd = T::ndim, td = T::tdim;
    const Setup& s;
    std::unique_ptr<GooseFEM::VectorPartitioned> vec;
    std::unique_ptr<typename T::Quad> quad, nodal;
    std::unique_ptr<GooseFEM::MatrixDiagonal> M;
    std::unique_ptr<GooseFEM::MatrixDiagonalPartitioned> MP;
    std::unique_ptr<GooseFEM::MatrixPartitioned> A;
    GooseFEM::MatrixPartitionedSolver<> S;
    A6 C;
    A4 Eps, Sig;
    A3 ue, fe;
    A2 u, v, a, f, fext, rho, disp;
    bool dirty = true;
    double fac = 0.0, hard = 1.0, grown = 1.0; // present position of the mesh, factors of stiffness and size
    std::vector<int> soft;
    size_t nelem, nip;

    explicit Program(const Setup& setup) : s(setup)
    {
        vec = std::make_unique<GooseFEM::VectorPartitioned>(s.m.conn, s.dofs, s.iip);
        A3 xe = vec->AsElement(s.m.coor);
        Rule n = rules(nd)[2];
        quad = std::make_unique<typename T::Quad>(T::make(xe, 1.5));
        nodal = std::make_unique<typename T::Quad>(T::make(xe, n.xi, n.w, 1.5));
        M = std::make_unique<GooseFEM::MatrixDiagonal>(s.m.conn, s.dofs);
        MP = std::make_unique<GooseFEM::MatrixDiagonalPartitioned>(s.m.conn, s.dofs, s.iip);
        A = std::make_unique<GooseFEM::MatrixPartitioned>(s.m.conn, s.dofs, s.iip);
        nelem = quad->nelem();
        nip = quad->nip();
        C = A6::from_shape({nelem, nip, td, td, td, td});
        soft.assign(nelem, 0);
        material();
        Eps = quad->template allocate_qtensor<2>(0.0);
        Sig = Eps;
        ue = vec->allocate_elemvec(0.0);
        fe = ue;
        u = vec->allocate_nodevec(0.0);
        v = u;
        a = u;
        f = u;
        fext = u;
        disp = u;
        rho = A2::from_shape({nelem, nodal->nip()});
        rho.fill(1.0);
        mass();
        // initial velocity
        A1 vd = vec->allocate_dofval(0.0);
        for (size_t i = 0; i < vd.size(); ++i) {
            vd(i) = 0.25 * (static_cast<double>((i * 7) % 5) - 1.5);
        }
        vec->asNode(vd, v);
        vec->copy_p(a, v);
    }

    void material()
    {
        for (size_t e = 0; e < nelem; ++e) {
            auto c = stiffness(td, hard * (soft[e] ? 0.5 : 1.0 + 0.25 * static_cast<double>(e % 2)));
            for (size_t q = 0; q < nip; ++q) {
                std::copy(c.begin(), c.end(), &C(e, q, 0, 0, 0, 0));
            }
        }
    }

    void mass()
    {
        A3 Me = nodal->Int_N_scalar_NT_dV(rho);
        M->assemble(Me);
        MP->assemble(Me);
    }

    void forces()
    {
        vec->asElement(u, ue);
        quad->symGradN_vector(ue, Eps);
        for (size_t e = 0; e < nelem; ++e) {
            for (size_t q = 0; q < nip; ++q) {
                for (size_t ij = 0; ij < td * td; ++ij) {
                    double r = 0.0;
                    for (size_t kl = 0; kl < td * td; ++kl) {
                        r += C(e, q, ij / td, ij % td, kl / td, kl % td) * Eps(e, q, kl / td, kl % td);
                    }
                    Sig(e, q, ij / td, ij % td) = r;
                }
            }
        }
        quad->int_gradN_dot_tensor2_dV(Sig, fe);
        vec->assembleNode(fe, f);
    }

    void geometry(double factor)
    {
        fac = factor;
        for (size_t i = 0; i < disp.shape(0); ++i) {
            for (size_t j = 0; j < nd; ++j) {
                disp(i, j) = std::pow(grown, j + 1) * (s.m.coor(i, j) + factor * 0.03125 * (static_cast<double>((i * 3 + j * 5) % 7) - 3.0));
            }
        }
        vec->asElement(disp, ue);
        quad->update_x(ue);
        nodal->update_x(ue);
        dirty = true;
    }

    void step(double dt, bool partitioned)
    {
        u += dt * v + 0.5 * dt * dt * a;
        A2 an = a;
        forces();
        A2 r = -f;
        if (!partitioned) {
            M->solve(r, a);
            vec->copy_p(A2(vec->allocate_nodevec(0.0)), a);
        }
        else {
            a = vec->allocate_nodevec(0.0);
            MP->solve(r, a);
        }
        v += 0.5 * dt * (an + a);
    }

    void solve(double factor)
    {
        if (dirty) {
            A->assemble(A3(quad->Int_gradN_dot_tensor4_dot_gradNT_dV(C)));
            dirty = false;
        }
        A1 ud = vec->AsDofs(u), fd = vec->allocate_dofval(0.0);
        for (size_t d = 0; d < ud.size(); ++d) {
            fd(d) = push(d);
        }
        for (auto d : s.iip) {
            ud(d) += factor * load(d);
        }
        vec->asNode(ud, u);
        vec->asNode(fd, fext);
        S.solve(*A, fext, u);
        A->reaction(u, fext);
        v.fill(0.0);
        a.fill(0.0);
    }

    void apply(size_t op)
    {
        switch (op) {
        case STEP:
            return step(0.1, false);
        case HALF:
            return step(0.05, true);
        case REVERSE:
            v *= -1.0;
            return;
        case MOVE:
            return geometry(1.0);
        case BACK:
            return geometry(0.0);
        case MATERIAL:
            for (size_t e = 0; e < nelem; ++e) {
                soft[e] = (soft[e] + 1 + static_cast<int>(e) % 2) % 3 ? 1 : 0;
            }
            material();
            dirty = true;
            return;
        case DENSITY:
            for (size_t i = 0; i < rho.size(); ++i) {
                rho.data()[i] += 0.5 + 0.25 * static_cast<double>(i % 3);
            }
            return mass();
        case LOAD:
            return solve(1.0);
        case UNLOAD:
            return solve(-0.5);
        case SCALE: {
            A1 m = A1(M->data());
            m *= 1.25;
            M->set(m);
            A1 n = MP->Todiagonal();
            n *= 1.25;
            MP = std::make_unique<GooseFEM::MatrixDiagonalPartitioned>(s.m.conn, s.dofs, s.iip);
            MP->set(n);
            return;
        }
        case NUDGE: // everything changes, but hardly
            grown *= 1.0 + 3e-6;
            geometry(fac);
            for (auto& i : rho) {
                i *= 1.0 + 1e-6;
            }
            mass();
            hard *= 1.0 - 1e-6;
            return material();
        case DUPLICATE: {
            auto vec2 = std::make_unique<GooseFEM::VectorPartitioned>(*vec);
            auto quad2 = std::make_unique<typename T::Quad>(*quad);
            auto nodal2 = std::make_unique<typename T::Quad>(*nodal);
            auto M2 = std::make_unique<GooseFEM::MatrixDiagonal>(*M);
            auto MP2 = std::make_unique<GooseFEM::MatrixDiagonalPartitioned>(*MP);
            auto A2 = std::make_unique<GooseFEM::MatrixPartitioned>(*A);
            vec = std::move(vec2);
            quad = std::move(quad2);
            nodal = std::move(nodal2);
            M = std::move(M2);
            MP = std::move(MP2);
            A = std::move(A2);
            return;
        }
        }
    }
};

// The same analysis, without the library: loops over elements, DOFs and integration points
template <Kind K>
struct Loops {
    using T = Type<K>;
    static constexpr size_t nne = T::nne, nd = T::ndim, td = T::tdim;
    const Setup& s;
    size_t nelem, n;
    std::vector<double> x, u, v, a, m, f, rho, fext;
    std::vector<std::vector<double>> C;
    std::vector<int> soft;
    std::vector<bool> P;
    double fac = 0.0, hard = 1.0, grown = 1.0;
    Rule rule, nodal;

    explicit Loops(const Setup& setup) : s(setup), nelem(s.m.conn.shape(0))
    {
        n = 0;
        for (auto d : s.dofs) {
            n = std::max(n, static_cast<size_t>(d) + 1);
        }
        rule = rules(nd)[1];
        nodal = rules(nd)[2];
        P.assign(n, false);
        for (auto d : s.iip) {
            P[d] = true;
        }
        u.assign(n, 0.0);
        v = a = f = fext = u;
        for (size_t d = 0; d < n; ++d) {
            v[d] = P[d] ? 0.0 : 0.25 * (static_cast<double>((d * 7) % 5) - 1.5);
        }
        soft.assign(nelem, 0);
        rho.assign(nelem * nodal.w.size(), 1.0);
        geometry(0.0);
        material();
        mass();
    }

    void geometry(double factor)
    {
        fac = factor;
        x.assign(s.m.coor.size(), 0.0);
        for (size_t i = 0; i < s.m.coor.shape(0); ++i) {
            for (size_t j = 0; j < nd; ++j) {
                x[i * nd + j] = std::pow(grown, j + 1) * (s.m.coor(i, j) + factor * 0.03125 * (static_cast<double>((i * 3 + j * 5) % 7) - 3.0));
            }
        }
    }

    void material()
    {
        C.clear();
        for (size_t e = 0; e < nelem; ++e) {
            C.push_back(stiffness(td, hard * (soft[e] ? 0.5 : 1.0 + 0.25 * static_cast<double>(e % 2))));
        }
    }

    Ref<K> ref(const Rule& r, size_t e, size_t q) const
    {
        double xe[nne * nd];
        for (size_t b = 0; b < nne; ++b) {
            for (size_t i = 0; i < nd; ++i) {
                xe[b * nd + i] = x[s.m.conn(e, b) * nd + i];
            }
        }
        return Ref<K>(xe, &r.xi(q, 0), r.w(q), 1.5);
    }

    void mass()
    {
        m.assign(n, 0.0);
        for (size_t e = 0; e < nelem; ++e) {
            for (size_t q = 0; q < nodal.w.size(); ++q) {
                auto r = ref(nodal, e, q);
                for (size_t b = 0; b < nne; ++b) {
                    for (size_t i = 0; i < nd; ++i) {
                        m[s.dofs(s.m.conn(e, b), i)] += r.p.N[b] * rho[e * nodal.w.size() + q] * r.vol;
                    }
                }
            }
        }
    }

    void strain(const Ref<K>& r, size_t e, double* eps) const
    {
        for (size_t i = 0; i < td; ++i) {
            for (size_t j = 0; j < td; ++j) {
                double g = 0.0;
                for (size_t b = 0; b < nne; ++b) {
                    for (size_t c = 0; c < nd; ++c) {
                        g += 0.5 * (r.B[b][i][j][c] + r.B[b][j][i][c]) * u[s.dofs(s.m.conn(e, b), c)];
                    }
                }
                eps[i * td + j] = g;
            }
        }
    }

    // internal force per DOF; optionally stress and work
    double forces(std::vector<double>* stress = nullptr, std::vector<double>* nodes = nullptr)
    {
        f.assign(n, 0.0);
        double work = 0.0;
        for (size_t e = 0; e < nelem; ++e) {
            for (size_t q = 0; q < rule.w.size(); ++q) {
                auto r = ref(rule, e, q);
                double eps[9], sig[9];
                strain(r, e, eps);
                for (size_t ij = 0; ij < td * td; ++ij) {
                    sig[ij] = 0.0;
                    for (size_t kl = 0; kl < td * td; ++kl) {
                        sig[ij] += C[e][ij * td * td + kl] * eps[kl];
                    }
                    work += 0.5 * sig[ij] * eps[ij] * r.vol;
                    if (stress) {
                        stress->push_back(sig[ij]);
                    }
                }
                for (size_t b = 0; b < nne; ++b) {
                    for (size_t c = 0; c < nd; ++c) {
                        double w = 0.0;
                        for (size_t ij = 0; ij < td * td; ++ij) {
                            w += r.B[b][ij / td][ij % td][c] * sig[ij] * r.vol;
                        }
                        f[s.dofs(s.m.conn(e, b), c)] += w;
                        if (nodes) {
                            (*nodes)[s.m.conn(e, b) * nd + c] += w;
                        }
                    }
                }
            }
        }
        return work;
    }

    Dense stiff() const
    {
        Dense A = zeros2(n, n);
        for (size_t e = 0; e < nelem; ++e) {
            for (size_t q = 0; q < rule.w.size(); ++q) {
                auto r = ref(rule, e, q);
                // columns: sig = C : B(b, c)
                for (size_t b = 0; b < nne; ++b) {
                    for (size_t c = 0; c < nd; ++c) {
                        double sig[9];
                        for (size_t ij = 0; ij < td * td; ++ij) {
                            sig[ij] = 0.0;
                            for (size_t kl = 0; kl < td * td; ++kl) {
                                sig[ij] += C[e][ij * td * td + kl] * r.B[b][kl / td][kl % td][c];
                            }
                        }
                        for (size_t b2 = 0; b2 < nne; ++b2) {
                            for (size_t c2 = 0; c2 < nd; ++c2) {
                                double w = 0.0;
                                for (size_t ij = 0; ij < td * td; ++ij) {
                                    w += r.B[b2][ij / td][ij % td][c2] * sig[ij];
                                }
                                A(s.dofs(s.m.conn(e, b2), c2), s.dofs(s.m.conn(e, b), c)) += w * r.vol;
                            }
                        }
                    }
                }
            }
        }
        return A;
    }

    void step(double dt)
    {
        for (size_t d = 0; d < n; ++d) {
            u[d] += dt * v[d] + 0.5 * dt * dt * a[d];
        }
        forces();
        for (size_t d = 0; d < n; ++d) {
            double an = a[d];
            a[d] = P[d] ? 0.0 : -f[d] / m[d];
            v[d] += 0.5 * dt * (an + a[d]);
        }
    }

    void solve(double factor)
    {
        Dense A = stiff(), B = A;
        std::vector<double> b(n);
        for (size_t d = 0; d < n; ++d) {
            b[d] = push(d);
            if (P[d]) {
                b[d] = u[d] + factor * load(d);
                for (size_t e = 0; e < n; ++e) {
                    B(d, e) = d == e ? 1.0 : 0.0;
                }
            }
        }
        std::vector<double> y;
        if (!dense_solve(B, b, y)) {
            std::abort();
        }
        u = y;
        std::vector<double> r = matvec(A, u);
        for (size_t d = 0; d < n; ++d) {
            fext[d] = P[d] ? r[d] : push(d);
            v[d] = a[d] = 0.0;
        }
    }

    void apply(size_t op)
    {
        switch (op) {
        case STEP:
            return step(0.1);
        case HALF:
            return step(0.05);
        case REVERSE:
            for (auto& i : v) {
                i = -i;
            }
            return;
        case MOVE:
            return geometry(1.0);
        case BACK:
            return geometry(0.0);
        case MATERIAL:
            for (size_t e = 0; e < nelem; ++e) {
                soft[e] = (soft[e] + 1 + static_cast<int>(e) % 2) % 3 ? 1 : 0;
            }
            return material();
        case DENSITY:
            for (size_t i = 0; i < rho.size(); ++i) {
                rho[i] += 0.5 + 0.25 * static_cast<double>(i % 3);
            }
            return mass();
        case LOAD:
            return solve(1.0);
        case UNLOAD:
            return solve(-0.5);
        case SCALE:
            for (auto& i : m) {
                i *= 1.25;
            }
            return;
        case NUDGE:
            grown *= 1.0 + 3e-6;
            geometry(fac);
            for (auto& i : rho) {
                i *= 1.0 + 1e-6;
            }
            mass();
            hard *= 1.0 - 1e-6;
            return material();
        }
    }

    A2 nodes(const std::vector<double>& d) const
    {
        A2 r = zeros2(s.dofs.shape(0), nd);
        for (size_t i = 0; i < r.size(); ++i) {
            r.data()[i] = d[s.dofs.data()[i]];
        }
        return r;
    }
};

template <Kind K>
static void analysis(Explorer& X, const Setup& s, const std::vector<size_t>& ops)
{
    constexpr size_t nd = Type<K>::ndim, td = Type<K>::tdim;
    X.run([&]() { return std::string(Type<K>::name()) + " " + s.name + ", history " + word(ops); }, [&]() {
        Program<K> p(s);
        Loops<K> r(s);
        for (auto op : ops) {
            p.apply(op);
            r.apply(op);
            ++X.transitions;
        }
        const double tol = 1e-10;
        X.close(p.u, r.nodes(r.u), tol, "displacement");
        X.close(p.v, r.nodes(r.v), tol, "velocity");
        X.close(p.a, r.nodes(r.a), tol, "acceleration");
        X.close(p.fext, r.nodes(r.fext), tol, "external force and reactions");
        X.close(A1(p.M->data()), arr(r.m), tol, "mass");
        X.close(A1(p.MP->Todiagonal()), arr(r.m), tol, "partitioned mass");
        X.close(A2(p.M->Dot(p.v)), r.nodes([&]() { auto q = r.v; for (size_t d = 0; d < r.n; ++d) q[d] *= r.m[d]; return q; }()), tol, "momentum");
        p.forces();
        std::vector<double> sig, fn(s.m.coor.size(), 0.0);
        double W = r.forces(&sig, &fn), w = 0.0;
        X.close(A2(p.f), r.nodes(r.f), tol, "internal force");
        X.close(A1(p.vec->AssembleDofs(p.fe)), arr(r.f), tol, "internal force per DOF");
        X.check(p.Sig.size() == sig.size(), "stress size");
        A2 dV = p.quad->dV();
        for (size_t i = 0; i < sig.size(); ++i) {
            X.close1(p.Sig.data()[i], sig[i], tol, "stress", i);
            w += 0.5 * p.Sig.data()[i] * p.Eps.data()[i] * dV.data()[i / (td * td)];
        }
        X.close1(w, W, tol, "strain energy");
        uint64_t h = 1469598103934665603ull;
        auto mix = [&](const std::vector<double>& q) {
            for (double d : q) {
                int64_t k = std::llround(d * 1e6);
                h = (h ^ static_cast<uint64_t>(k)) * 1099511628211ull;
            }
        };
        mix(r.u);
        mix(r.v);
        mix(r.a);
        mix(r.m);
        mix(r.x);
        for (int i : r.soft) {
            h = (h ^ static_cast<uint64_t>(i + 7)) * 1099511628211ull;
        }
        X.state(h);
        X.observe(h);
        (void)nd;
    }, ops.size() > 1);
}

template <Kind K>
static void analyses(Explorer& X, std::vector<Mesh> meshes)
{
    constexpr size_t nd = Type<K>::ndim;
    for (auto& mesh : meshes) {
        if (K == Kind::axisym) {
            for (size_t i = 0; i < mesh.coor.shape(0); ++i) {
                mesh.coor(i, 1) += 1.0;
            }
        }
        bool big = nd == 3;
        for (int variant = 0; variant < 3; ++variant) {
            Setup s;
            s.m = deform(mesh, variant == 0 ? 0 : variant == 1 ? 1 : 4);
            s.dofs = s.m.dofs;
            if (variant == 2) { // periodic left-right: nodes share DOFs
                double lo = xt::amin(xt::view(s.m.coor, xt::all(), 0))(), hi = xt::amax(xt::view(s.m.coor, xt::all(), 0))();
                for (size_t i = 0; i < s.m.coor.shape(0); ++i) {
                    for (size_t k = 0; k < s.m.coor.shape(0); ++k) {
                        bool same = s.m.coor(i, 0) == lo && s.m.coor(k, 0) == hi;
                        for (size_t c = 1; c < nd; ++c) {
                            same = same && s.m.coor(i, c) == s.m.coor(k, c);
                        }
                        for (size_t c = 0; c < nd && same; ++c) {
                            s.dofs(k, c) = s.dofs(i, c);
                        }
                    }
                }
                s.dofs = G::renumber(s.dofs);
            }
            s.dofs = renumber(s.dofs, variant);
            // prescribed: bottom and one top component, in a scrambled order
            double lo = xt::amin(xt::view(s.m.coor, xt::all(), 1))(), hi = xt::amax(xt::view(s.m.coor, xt::all(), 1))();
            std::vector<size_t> P;
            for (size_t i = 0; i < s.m.coor.shape(0); ++i) {
                for (size_t c = 0; c < nd; ++c) {
                    if (s.m.coor(i, 1) == lo || (s.m.coor(i, 1) == hi && c == 0 && variant != 1)) {
                        if (std::find(P.begin(), P.end(), s.dofs(i, c)) == P.end()) {
                            P.insert(variant == 0 ? P.end() : P.begin() + static_cast<long>(P.size() / 2), s.dofs(i, c));
                        }
                    }
                }
            }
            s.iip = sarr(P);
            s.name = s.m.name + ", variant " + std::to_string(variant);
            size_t depth = (X.thorough ? 5 : 4) - (big && s.m.conn.shape(0) > 1 ? 1 : 0);
            if (X.thorough && !big && mesh.conn.shape(0) > 2) {
                depth = 4;
            }
            for (size_t n = 0; n <= depth; ++n) {
                tuples(n, NOPS, [&](const std::vector<size_t>& ops) { analysis<K>(X, s, ops); });
            }
        }
    }
}

static int s03(Explorer& X)
{
    std::vector<Mesh> q, h;
    q.push_back(from("Regular(2,1)", G::Quad4::Regular(2, 1)));
    h.push_back(from("Hex8::Regular(1,1,1)", G::Hex8::Regular(1, 1, 1)));
    if (X.thorough) {
        q.push_back(from("Regular(2,2)", G::Quad4::Regular(2, 2)));
        q.push_back(from("Regular(1,3)", G::Quad4::Regular(1, 3)));
        h.push_back(from("Hex8::Regular(1,2,1)", G::Hex8::Regular(1, 2, 1)));
    }
    analyses<Kind::quad4>(X, q);
    analyses<Kind::planar>(X, q);
    analyses<Kind::axisym>(X, q);
    analyses<Kind::hex8>(X, h);
    return X.finish("all histories over 12 operations (two time steps, reversal, moving the mesh there and back, change of material, change of density, two loads with a static solve, copying all objects, scaling of the mass, a small change of positions, density and stiffness together) up to length " +
                    std::to_string(X.thorough ? 5 : 4) + " x 4 element types x 3 variants (numbering, shared DOFs, prescribed DOFs)");
}
#endif
int main(int argc, char** argv)
{
    Explorer X(argc, argv);
#ifdef S01
    return s01(X);
#endif
#ifdef S02
    return s02(X);
#endif
#ifdef S03
    return s03(X);
#endif
}
