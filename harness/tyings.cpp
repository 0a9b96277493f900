// T01 periodic tyings (-DT01), T02 control nodes (-DT02).
#include "linalg.h"
#include <GooseFEM/TyingsPeriodic.h>
using namespace vh;

static A2 coordinates(size_t nnode, size_t ndim, int kind)
{
    A2 x = A2::from_shape({nnode, ndim});
    Lcg g(static_cast<uint64_t>(kind) + 3);
    const double scale[] = {std::ldexp(1.0, -30), std::ldexp(1.0, 20), std::ldexp(1.0, -12)};
    for (size_t m = 0; m < nnode; ++m) {
        for (size_t i = 0; i < ndim; ++i) {
            x(m, i) = kind == 0 ? static_cast<double>((m + 1) * (m + 1) + 10 * i) : g.integer(-5, 5) * 0.5;
            if (kind == 2) { // components of very different magnitude
                x(m, i) *= scale[i];
            }
        }
    }
    return x;
}

#ifdef T01
static void tied(Explorer& X, const A2& coor, const S2& dofs, const S2& control, const S2& ties, const std::vector<size_t>& iip, bool short_ctor)
{
    size_t nnode = coor.shape(0), ndim = coor.shape(1), nties = ties.shape(0);
    S1 p = sarr(iip);
    GooseFEM::Tyings::Periodic P0 = short_ctor ? GooseFEM::Tyings::Periodic(coor, dofs, control, ties) : GooseFEM::Tyings::Periodic(coor, dofs, control, ties, p);
    GooseFEM::Tyings::Periodic P = P0;
    std::set<size_t> all(dofs.begin(), dofs.end()), dep, pre(iip.begin(), iip.end());
    for (size_t i = 0; i < nties; ++i) {
        for (size_t j = 0; j < ndim; ++j) {
            dep.insert(dofs(ties(i, 1), j));
        }
    }
    size_t nnd = dep.size(), nni = all.size() - nnd, nnp = pre.size(), nnu = nni - nnp;
    X.check(P.nnd() == nnd && P.nni() == nni && P.nnp() == nnp && P.nnu() == nnu, "nnu,nnp,nni,nnd = ", P.nnu(), ",", P.nnp(), ",", P.nni(), ",", P.nnd());
    X.equal(P.iiu(), S1(xt::arange<size_t>(0, nnu)), "iiu");
    X.equal(P.iip(), S1(xt::arange<size_t>(nnu, nni)), "iip");
    X.equal(P.iii(), S1(xt::arange<size_t>(0, nni)), "iii");
    X.equal(P.iid(), S1(xt::arange<size_t>(nni, nni + nnd)), "iid");
    X.equal(P.nodal_tyings(), ties, "nodal_tyings");
    // renumbering is a function and a bijection
    S2 nd = P.dofs(), nc = P.control();
    X.same_shape(nd.shape(), dofs.shape(), "dofs");
    X.same_shape(nc.shape(), control.shape(), "control");
    std::map<size_t, size_t> f;
    std::set<size_t> image;
    for (size_t m = 0; m < nnode; ++m) {
        for (size_t i = 0; i < ndim; ++i) {
            auto it = f.find(dofs(m, i));
            X.check(it == f.end() || it->second == nd(m, i), "renumbering is not a function");
            f[dofs(m, i)] = nd(m, i);
            image.insert(nd(m, i));
        }
    }
    X.check(image.size() == all.size() && *image.rbegin() + 1 == all.size(), "renumbering is not a bijection to 0..ndof-1");
    for (auto& q : f) {
        bool isd = dep.count(q.first), isp = pre.count(q.first);
        X.check(isd == (q.second >= nni), "dependent DOF ", q.first, " -> ", q.second);
        X.check(isp == (q.second >= nnu && q.second < nni), "prescribed DOF ", q.first, " -> ", q.second);
    }
    for (size_t k = 0; k < iip.size(); ++k) {
        X.check(f[iip[k]] == nnu + k, "order of prescribed DOFs");
    }
    for (size_t i = 0; i < ndim; ++i) {
        for (size_t j = 0; j < ndim; ++j) {
            X.check(nc(i, j) == f[control(i, j)], "control");
        }
    }
    // tying matrices
    Dense C = zeros2(nnd, nni);
    for (size_t i = 0; i < nties; ++i) {
        for (size_t j = 0; j < ndim; ++j) {
            size_t r = nd(ties(i, 1), j) - nni;
            C(r, nd(ties(i, 0), j)) += 1.0;
            for (size_t k = 0; k < ndim; ++k) {
                C(r, nc(j, k)) += coor(ties(i, 1), k) - coor(ties(i, 0), k);
            }
        }
    }
    // the columns of the control DOFs hold differences of coordinates: in units of the extent of that component
    std::vector<double> unit(nni, 1.0);
    for (size_t k = 0; k < ndim; ++k) {
        double e = 0.0;
        for (size_t m = 0; m + ndim < nnode; ++m) {
            e = std::max(e, std::abs(coor(m, k) - coor(0, k)));
        }
        for (size_t j = 0; j < ndim; ++j) {
            unit[nc(j, k)] = e > 0.0 ? 1.0 / e : 1.0;
        }
    }
    auto expected = [&](size_t i, size_t j) { return C(i, j) * unit[j]; };
    auto scaled = [&](const Eigen::SparseMatrix<double>& A, size_t offset) {
        Eigen::SparseMatrix<double> B = A;
        for (int k = 0; k < B.outerSize(); ++k) {
            for (Eigen::SparseMatrix<double>::InnerIterator it(B, k); it; ++it) {
                size_t j = static_cast<size_t>(it.col()) + offset;
                it.valueRef() *= j < nni ? unit[j] : 1.0;
            }
        }
        return B;
    };
    check_sparse(X, scaled(P.Cdi(), 0), nnd, nni, "Cdi", expected);
    check_sparse(X, scaled(P.Cdu(), 0), nnd, nnu, "Cdu", expected);
    check_sparse(X, scaled(P.Cdp(), nnu), nnd, nnp, "Cdp", [&](size_t i, size_t j) { return expected(i, nnu + j); });
    // an affine field is reproduced (numberings in which independent nodes do not share DOFs)
    if (all.size() == dofs.size()) {
        Eigen::VectorXd ui = Eigen::VectorXd::Zero(nni), ud = Eigen::VectorXd::Zero(nnd);
        auto F = [](size_t i, size_t j) { return static_cast<double>(i * 3 + j) * 0.5 - 1.0; };
        for (size_t m = 0; m < nnode - ndim; ++m) {
            for (size_t i = 0; i < ndim; ++i) {
                double u = 7.0 + static_cast<double>(i);
                for (size_t j = 0; j < ndim; ++j) {
                    u += F(i, j) * coor(m, j);
                }
                (nd(m, i) < nni ? ui(nd(m, i)) : ud(nd(m, i) - nni)) = u;
            }
        }
        for (size_t i = 0; i < ndim; ++i) {
            for (size_t j = 0; j < ndim; ++j) {
                ui(nc(i, j)) = F(i, j);
            }
        }
        Eigen::VectorXd got = P.Cdi() * ui, got2 = P.Cdu() * ui.head(nnu) + P.Cdp() * ui.tail(nnp);
        for (size_t d = 0; d < nnd; ++d) {
            X.close1(got(d), ud(d), 1e-12, "affine field", d);
            X.close1(got2(d), ud(d), 1e-12, "affine field (partitioned)", d);
        }
    }
}

static void enumerate(Explorer& X, size_t nn, size_t ndim, bool orders)
{
    size_t nnode = nn + ndim;
    // numberings: default, permuted, components of two independent nodes shared
    for (int numbering = 0; numbering < 3; ++numbering) {
        S2 dofs = S2::from_shape({nnode, ndim});
        size_t n = dofs.size();
        for (size_t i = 0; i < n; ++i) {
            dofs.data()[i] = numbering == 1 ? (i * 7 + 3) % n : i;
        }
        if (numbering == 1 && n % 7 == 0) {
            for (size_t i = 0; i < n; ++i) {
                dofs.data()[i] = n - 1 - i;
            }
        }
        if (numbering == 2) {
            if (nn < 3) {
                continue;
            }
            for (size_t i = ndim; i < n; ++i) { // second node shares the DOFs of the first
                dofs.data()[i] = i - ndim;
            }
        }
        S2 control = S2::from_shape({ndim, ndim});
        for (size_t i = 0; i < ndim; ++i) {
            for (size_t j = 0; j < ndim; ++j) {
                control(i, j) = dofs(nn + i, j);
            }
        }
        // every mesh node: free (= nn) or dependent on another (free) mesh node
        tuples(nn, nn + 1, [&](const std::vector<size_t>& t) {
            std::vector<std::array<size_t, 2>> pairs;
            for (size_t m = 0; m < nn; ++m) {
                if (t[m] == nn) {
                    continue;
                }
                if (t[t[m]] != nn) {
                    return; // reference must be independent (this excludes self-reference)
                }
                if (numbering == 2 && m < 2) {
                    return; // shared DOFs must be independent
                }
                pairs.push_back({t[m], m});
            }
            for (size_t rot = 0; rot < (orders ? std::max<size_t>(1, pairs.size()) : 1); ++rot) {
                S2 ties = S2::from_shape({pairs.size(), 2});
                std::set<size_t> dep;
                for (size_t i = 0; i < pairs.size(); ++i) {
                    auto& q = pairs[(pairs.size() - 1 - i + rot) % pairs.size()];
                    ties(i, 0) = q[0];
                    ties(i, 1) = q[1];
                    for (size_t j = 0; j < ndim; ++j) {
                        dep.insert(dofs(q[1], j));
                    }
                }
                if (pairs.empty()) {
                    ties = S2::from_shape({0, 2});
                }
                std::vector<size_t> ind;
                for (auto d : std::set<size_t>(dofs.begin(), dofs.end())) {
                    if (!dep.count(d)) {
                        ind.push_back(d);
                    }
                }
                for (size_t mask = 0; mask < (size_t(1) << ind.size()); ++mask) {
                    // with many DOFs: all subsets of the control DOFs and of the first mesh node
                    if (ind.size() > 9 && (mask % 5 != 0 || mask > (size_t(1) << 9))) {
                        continue;
                    }
                    std::vector<size_t> iip = subset(ind, mask);
                    for (int rev = 0; rev < (iip.size() > 1 ? 2 : 1); ++rev) {
                        if (rev) {
                            std::reverse(iip.begin(), iip.end());
                        }
                        for (int c = 0; c < 3; ++c) {
                            A2 coor = coordinates(nnode, ndim, c);
                            X.run([&]() { return "coor" + std::to_string(nnode) + "x" + std::to_string(ndim) + str(coor) + " dofs" + str(dofs) + " ties" + str(ties) + " iip" + str(iip); },
                                  [&]() { tied(X, coor, dofs, control, ties, iip, false); }, !pairs.empty());
                        }
                    }
                    if (iip.empty()) {
                        A2 coor = coordinates(nnode, ndim, 0);
                        X.run([&]() { return "short constructor dofs" + str(dofs) + " ties" + str(ties); }, [&]() { tied(X, coor, dofs, control, ties, iip, true); }, !pairs.empty());
                    }
                }
            }
        });
    }
}
#endif

int main(int argc, char** argv)
{
    Explorer X(argc, argv);
#ifdef T01
    enumerate(X, 2, 1, true);
    enumerate(X, 3, 1, true);
    enumerate(X, 4, 1, true);
    enumerate(X, 2, 2, true);
    enumerate(X, 3, 2, true);
    if (X.thorough) {
        enumerate(X, 5, 1, true);
        enumerate(X, 4, 2, false);
        enumerate(X, 2, 3, false);
        enumerate(X, 3, 3, false);
    }
    if (X.deep) {
        enumerate(X, 6, 1, true);
        enumerate(X, 4, 2, true);
        enumerate(X, 3, 3, true);
        enumerate(X, 5, 2, false);
    }
    // real periodic cells
    auto cell = [&](const std::string& name, const auto& make) {
        for (int k = 0; k < 6; ++k) {
            X.run([&]() { return "periodic cell " + name + " prescribed pattern " + std::to_string(k); }, [&]() {
                auto m = make();
                A2 x0 = m.coor();
                S2 d0 = m.dofs(), ties = m.nodesPeriodic();
                size_t origin = m.nodesOrigin();
                GooseFEM::Tyings::Control c(x0, d0);
                std::vector<size_t> iip;
                S2 cd = c.controlDofs();
                for (size_t i = 0; i < cd.size(); ++i) {
                    if (k == 1 || k == 3 || (k == 4 && i % 2) || (k == 5 && i == 0)) {
                        iip.push_back(cd.data()[i]);
                    }
                }
                if (k >= 2) {
                    for (size_t i = 0; i < d0.shape(1); ++i) {
                        iip.push_back(d0(origin, i));
                    }
                }
                tied(X, c.coor(), c.dofs(), cd, ties, iip, false);
            });
        }
    };
    namespace G = GooseFEM::Mesh;
    for (size_t nx = 1; nx <= (X.thorough ? 4 : 3); ++nx) {
        for (size_t ny = 1; ny <= (X.thorough ? 4 : 3); ++ny) {
            std::string s = std::to_string(nx) + "x" + std::to_string(ny);
            cell("Quad4 " + s, [&]() { return G::Quad4::Regular(nx, ny, 0.5); });
            cell("Tri3 " + s, [&]() { return G::Tri3::Regular(nx, ny); });
            for (size_t nz = 1; nz <= 2; ++nz) {
                cell("Hex8 " + s + "x" + std::to_string(nz), [&]() { return G::Hex8::Regular(nx, ny, nz); });
            }
        }
    }
    cell("Quad4 8x5", [&]() { return G::Quad4::Regular(8, 5, 0.25); });
    cell("Tri3 5x8", [&]() { return G::Tri3::Regular(5, 8, 2.0); });
    cell("Hex8 3x3x3", [&]() { return G::Hex8::Regular(3, 3, 3, 3.0); });
    cell("Quad4 FineLayer(9,9)", [&]() { return G::Quad4::FineLayer(9, 9); });
    cell("Quad4 FineLayer(6,13,nfine=3)", [&]() { return G::Quad4::FineLayer(6, 13, 0.5, 3); });
    for (double h : {1e-9, 1e-4, 1e6}) {
        cell("Quad4 2x3 h=" + std::to_string(h), [&]() { return G::Quad4::Regular(2, 3, h); });
        cell("Tri3 3x2 h=" + std::to_string(h), [&]() { return G::Tri3::Regular(3, 2, h); });
        cell("Hex8 2x1x2 h=" + std::to_string(h), [&]() { return G::Hex8::Regular(2, 1, 2, h); });
        cell("Quad4 FineLayer(3,7) h=" + std::to_string(h), [&]() { return G::Quad4::FineLayer(3, 7, h); });
    }
    cell("Hex8 FineLayer(3,5,3)", [&]() { return G::Hex8::FineLayer(3, 5, 3); });
    if (X.thorough) {
        cell("Quad4 20x13", [&]() { return G::Quad4::Regular(20, 13); });
        cell("Hex8 4x4x5", [&]() { return G::Hex8::Regular(4, 4, 5); });
        cell("Quad4 FineLayer(18,31)", [&]() { return G::Quad4::FineLayer(18, 31); });
    }
    return X.finish(std::string(X.deep ? "(bounds in brackets; deep: 6 in 1, 5 in 2, 3 in 3 dimensions) " : X.thorough ? "(bounds in brackets) " : "") + "all assignments of 2..4 (5) mesh nodes in 1 and 2..3 (4) in 2 dimensions (3 dimensions in the thorough tier) to free or dependent-on-a-free-node, rotations of the "
                    "tying list, all subsets of prescribed independent DOFs in two orders (stride 5 beyond 9 DOFs), 3 numberings, 3 sets of coordinates (one with components 2^-30, 2^20 and 2^-12 in size); periodic cells of quadrilaterals, triangles and hexahedra, regular and layered");
#endif
#ifdef T02
    auto control = [&](const A2& coor, const S2& dofs, const std::string& name) {
        X.run([&]() { return name; }, [&]() {
            GooseFEM::Tyings::Control c0(coor, dofs);
            GooseFEM::Tyings::Control c = c0;
            size_t n = coor.shape(0), d = coor.shape(1), top = 0;
            for (auto q : dofs) {
                top = std::max(top, static_cast<size_t>(q));
            }
            X.same_shape(c.coor().shape(), std::array<size_t, 2>{n + d, d}, "coor");
            X.same_shape(c.dofs().shape(), std::array<size_t, 2>{n + d, d}, "dofs");
            X.same_shape(c.controlDofs().shape(), std::array<size_t, 2>{d, d}, "controlDofs");
            X.check(c.controlNodes().size() == d, "controlNodes");
            for (size_t m = 0; m < n; ++m) {
                for (size_t i = 0; i < d; ++i) {
                    X.check(c.coor()(m, i) == coor(m, i), "original coordinate");
                    X.check(c.dofs()(m, i) == dofs(m, i), "original DOF");
                    X.observe(c.dofs()(m, i));
                }
            }
            for (size_t k = 0; k < d; ++k) {
                X.check(c.controlNodes()(k) == n + k, "controlNodes");
                for (size_t i = 0; i < d; ++i) {
                    X.check(c.controlDofs()(k, i) == top + 1 + k * d + i, "controlDofs");
                    X.check(c.dofs()(n + k, i) == c.controlDofs()(k, i), "DOFs of control node");
                    X.check(c.coor()(n + k, i) == 0.0, "coordinates of control node");
                }
            }
            // other forms of storage
            xt::xtensor<double, 2, xt::layout_type::column_major> xc = coor;
            xt::xtensor<size_t, 2, xt::layout_type::column_major> dc = dofs;
            xt::xtensor<int, 2> di = xt::cast<int>(dofs);
            auto same = [&](const GooseFEM::Tyings::Control& r, const std::string& form) {
                X.equal(r.coor(), c.coor(), "coor, " + form);
                X.equal(r.dofs(), c.dofs(), "dofs, " + form);
                X.equal(r.controlDofs(), c.controlDofs(), "controlDofs, " + form);
                X.equal(r.controlNodes(), c.controlNodes(), "controlNodes, " + form);
            };
            same(GooseFEM::Tyings::Control(xc, dofs), "column-major coordinates");
            same(GooseFEM::Tyings::Control(coor, dc), "column-major DOFs");
            same(GooseFEM::Tyings::Control(coor, di), "DOFs as int");
        });
    };
    for (size_t ndim = 1; ndim <= 3; ++ndim) {
        for (size_t n = 1; n <= (ndim == 1 ? (X.deep ? 6 : 4) : ndim == 2 ? (X.deep ? 4 : X.thorough ? 3 : 2) : X.deep ? 2 : 1); ++n) {
            tuples(n * ndim, std::min<size_t>(n * ndim + 1, 6), [&](const std::vector<size_t>& d) {
                control(coordinates(n, ndim, 0), make2(n, ndim, d), "dofs" + std::to_string(n) + "x" + std::to_string(ndim) + str(d));
            });
        }
    }
    real_meshes(X.thorough, [&](const A2& coor, const S2&, const std::string& name) {
        numberings(coor.shape(0), coor.shape(1), [&](const S2& d, const std::string& nm) { control(coor, d, name + " " + nm); });
    });
    return X.finish(std::string("all numberings (gaps included) of up to ") + (X.deep ? "6 nodes in 1, 4 in 2 and 2" : X.thorough ? "4 nodes in 1, 3 in 2 and 1" : "4 nodes in 1, 2 in 2 and 1") + " in 3 dimensions; real meshes x 6 numberings");
#endif
}
