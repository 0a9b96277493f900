// V03 partitioned storage (-DV03), V04 tied storage (-DV04).
#include "homogeneous.h"
#include <GooseFEM/VectorPartitionedTyings.h>
using namespace vh;


#ifdef V03
static void partitioned(Explorer& X, const World& w, const std::vector<size_t>& iip_list)
{
    size_t ndof = w.ndof();
    S1 iip = S1::from_shape({iip_list.size()});
    std::vector<int> isp(ndof, 0), used(ndof, 0);
    std::vector<size_t> pos(ndof, ~size_t(0));
    for (size_t i = 0; i < iip_list.size(); ++i) {
        iip(i) = iip_list[i];
        isp[iip_list[i]] = 1;
        pos[iip_list[i]] = i;
    }
    for (auto d : w.dofs) {
        used[d] = 1;
    }
    std::vector<size_t> iiu;
    for (size_t d = 0; d < ndof; ++d) {
        if (used[d] && !isp[d]) {
            pos[d] = iiu.size();
            iiu.push_back(d);
        }
    }

    GooseFEM::VectorPartitioned v0(w.conn, w.dofs, iip);
    GooseFEM::VectorPartitioned v = v0;
    X.check(v.nnu() == iiu.size(), "nnu ", v.nnu(), " expected ", iiu.size());
    X.check(v.nnp() == iip.size(), "nnp");
    X.check(v.ndof() == ndof, "ndof");
    X.equal(v.iip(), iip, "iip");
    X.check(v.iiu().size() == iiu.size(), "size iiu");
    for (size_t i = 0; i < iiu.size(); ++i) {
        X.check(v.iiu()(i) == iiu[i], "iiu");
    }
    auto isu = v.dofs_is_u();
    auto is_p = v.dofs_is_p();
    X.same_shape(isu.shape(), v.shape_nodevec(), "dofs_is_u");
    X.same_shape(is_p.shape(), v.shape_nodevec(), "dofs_is_p");
    for (size_t m = 0; m < w.nnode(); ++m) {
        for (size_t i = 0; i < w.ndim(); ++i) {
            X.check(is_p(m, i) == (isp[w.dofs(m, i)] == 1), "dofs_is_p");
            X.check(isu(m, i) == (isp[w.dofs(m, i)] == 0), "dofs_is_u");
        }
    }

    // reference data
    A1 d = A1::from_shape({ndof}), u = A1::from_shape({iiu.size()}), p = A1::from_shape({iip.size()});
    for (size_t i = 0; i < ndof; ++i) {
        d(i) = dofvalue(i);
    }
    for (size_t i = 0; i < iiu.size(); ++i) {
        u(i) = d(iiu[i]);
    }
    for (size_t i = 0; i < iip.size(); ++i) {
        p(i) = d(iip(i));
    }
    A2 n = A2::from_shape({w.nnode(), w.ndim()});
    for (size_t m = 0; m < w.nnode(); ++m) {
        for (size_t i = 0; i < w.ndim(); ++i) {
            n(m, i) = d(w.dofs(m, i));
        }
    }
    std::vector<int> inelem(ndof, 0);
    A3 e = A3::from_shape({w.nelem(), w.nne(), w.ndim()});
    for (size_t k = 0; k < w.nelem(); ++k) {
        for (size_t m = 0; m < w.nne(); ++m) {
            for (size_t i = 0; i < w.ndim(); ++i) {
                e(k, m, i) = n(w.conn(k, m), i);
                inelem[w.dofs(w.conn(k, m), i)] = 1;
            }
        }
    }
    A1 u_e = u, p_e = p, d_used = d;
    for (size_t i = 0; i < iiu.size(); ++i) {
        u_e(i) = inelem[iiu[i]] ? u(i) : 0.0;
    }
    for (size_t i = 0; i < iip.size(); ++i) {
        p_e(i) = inelem[iip(i)] ? p(i) : 0.0;
    }
    for (size_t i = 0; i < ndof; ++i) {
        d_used(i) = used[i] ? d(i) : 0.0;
    }

#define PART(UP, lo, in, expect) \
    do { \
        X.equal(v.UP(in), expect, #UP "(" #in ")"); \
        A1 r = A1::from_shape({expect.size()}); \
        r.fill(G1); \
        v.lo(in, r); \
        X.equal(r, expect, #lo "(" #in ", dirty)"); \
    } while (0)
    PART(AsDofs_u, asDofs_u, d, u);
    PART(AsDofs_u, asDofs_u, n, u);
    PART(AsDofs_u, asDofs_u, e, u_e);
    PART(AsDofs_p, asDofs_p, d, p);
    PART(AsDofs_p, asDofs_p, n, p);
    PART(AsDofs_p, asDofs_p, e, p_e);

    A1 rd = A1::from_shape({ndof});
    A2 rn = A2::from_shape(n.shape());
    A3 re = A3::from_shape(e.shape());
    rd.fill(G1);
    rn.fill(G1);
    re.fill(G1);
    X.equal(v.DofsFromParitioned(u, p), d_used, "DofsFromParitioned");
    X.equal(v.NodeFromPartitioned(u, p), n, "NodeFromPartitioned");
    X.equal(v.ElementFromPartitioned(u, p), e, "ElementFromPartitioned");
    v.dofsFromParitioned(u, p, rd);
    v.nodeFromPartitioned(u, p, rn);
    v.elementFromPartitioned(u, p, re);
    X.equal(rd, d_used, "dofsFromParitioned(dirty)");
    X.equal(rn, n, "nodeFromPartitioned(dirty)");
    X.equal(re, e, "elementFromPartitioned(dirty)");

    // partial copies: source with entirely different (also inconsistent) values
    A2 dest = A2::from_shape(n.shape()), src = A2::from_shape(n.shape());
    for (size_t i = 0; i < n.size(); ++i) {
        dest.data()[i] = 1000.0 + static_cast<double>(i);
        src.data()[i] = zero_bit(1, i) ? 0.0 : -1.0 - static_cast<double>(i);
    }
    A2 eu = dest, ep = dest;
    for (size_t m = 0; m < w.nnode(); ++m) {
        for (size_t i = 0; i < w.ndim(); ++i) {
            (isp[w.dofs(m, i)] ? ep : eu)(m, i) = src(m, i);
        }
    }
    A2 keep = dest, skeep = src;
    X.equal(v.Copy_u(src, dest), eu, "Copy_u");
    X.equal(v.Copy_p(src, dest), ep, "Copy_p");
    X.equal(dest, keep, "Copy changed its argument");
    v.copy_u(src, dest);
    X.equal(dest, eu, "copy_u");
    dest = keep;
    v.copy_p(src, dest);
    X.equal(dest, ep, "copy_p");
    v.copy_u(src, dest);
    X.equal(dest, src, "copy_p then copy_u");
    X.equal(src, skeep, "source modified");

    // inherited conversions, and the object that was copied from
    X.equal(v.AsElement(n), e, "AsElement");
    X.equal(v0.AsDofs_u(n), u, "original object");
    GooseFEM::VectorPartitioned a(S2(xt::zeros<size_t>({1, 1})), S2(xt::zeros<size_t>({1, 1})), S1(xt::zeros<size_t>({1})));
    a = v0;
    X.equal(a.NodeFromPartitioned(u, p), n, "assigned object");
    X.check(a.nnu() == iiu.size() && a.nnp() == iip.size(), "assigned sizes");
}

static void enumerate(Explorer& X)
{
    worlds(X.thorough, [&](const World& w) {
        size_t ndof = w.ndof();
        std::vector<size_t> present;
        for (size_t d = 0; d < ndof; ++d) {
            for (auto q : w.dofs) {
                if (q == d) {
                    present.push_back(d);
                    break;
                }
            }
        }
        auto go = [&](const std::vector<size_t>& iip) {
            X.run([&]() { return w.str() + " iip=" + str(iip); }, [&]() { partitioned(X, w, iip); },
                  iip.size() > 0 && iip.size() < present.size());
        };
        if (present.size() <= 6) {
            for (size_t mask = 0; mask < (size_t(1) << present.size()); ++mask) {
                std::vector<size_t> iip;
                for (size_t i = 0; i < present.size(); ++i) {
                    if (mask >> i & 1) {
                        iip.push_back(present[i]);
                    }
                }
                go(iip);
                if (iip.size() > 1) {
                    if (X.thorough && iip.size() <= 4) {
                        std::vector<size_t> q = iip;
                        while (std::next_permutation(q.begin(), q.end())) {
                            go(q);
                        }
                    }
                    else {
                        std::reverse(iip.begin(), iip.end());
                        go(iip);
                        std::swap(iip[0], iip[iip.size() / 2]);
                        go(iip);
                    }
                }
            }
        }
        else {
            for (size_t k = 0; k < 5; ++k) {
                std::vector<size_t> iip;
                for (size_t i = 0; i < present.size(); ++i) {
                    bool in = k == 0 ? false : k == 1 ? true : k == 2 ? i % 3 == 0 : k == 3 ? i < present.size() / 2 : (i * i) % 7 < 2;
                    if (in) {
                        iip.push_back(present[i]);
                    }
                }
                if (k >= 2) {
                    Lcg g(k);
                    for (size_t i = iip.size(); i > 1; --i) {
                        std::swap(iip[i - 1], iip[g.below(i)]);
                    }
                }
                go(iip);
            }
        }
    }, X.thorough ? 1 : 0);
}
#endif

#ifdef V04
static A1 d_of(const World&, const A1& d, const std::vector<int>& used)
{
    A1 r = d;
    for (size_t i = 0; i < d.size(); ++i) {
        r(i) = used[i] ? d(i) : 0.0;
    }
    return r;
}

static void tied(Explorer& X, const World& w, size_t nnu, size_t nnp, size_t nnd, const std::vector<size_t>& coef)
{
    size_t nni = nnu + nnp;
    Eigen::SparseMatrix<double> Cdu(nnd, nnu), Cdp(nnd, nnp), Cdi(nnd, nni);
    std::vector<std::vector<double>> C(nnd, std::vector<double>(nni, 0.0));
    for (size_t d = 0; d < nnd; ++d) {
        for (size_t i = 0; i < nni; ++i) {
            double c = coef[(d * nni + i) % coef.size()] == 0 ? 0.0 : (coef[(d * nni + i) % coef.size()] == 1 ? 1.0 : -0.5) * (1.0 + static_cast<double>(d + 2 * i));
            C[d][i] = c;
            if (c != 0.0) {
                Cdi.insert(d, i) = c;
                if (i < nnu) {
                    Cdu.insert(d, i) = c;
                }
                else {
                    Cdp.insert(d, i - nnu) = c;
                }
            }
        }
    }
    GooseFEM::VectorPartitionedTyings v0(w.conn, w.dofs, Cdu, Cdp, Cdi);
    GooseFEM::VectorPartitionedTyings v = v0;
    X.check(v.nnu() == nnu && v.nnp() == nnp && v.nnd() == nnd && v.nni() == nni, "sizes");
    X.equal(v.iiu(), S1(xt::arange<size_t>(0, nnu)), "iiu");
    X.equal(v.iip(), S1(xt::arange<size_t>(nnu, nni)), "iip");
    X.equal(v.iii(), S1(xt::arange<size_t>(0, nni)), "iii");
    X.equal(v.iid(), S1(xt::arange<size_t>(nni, nni + nnd)), "iid");

    size_t ndof = nni + nnd;
    std::vector<int> used(ndof, 0);
    A2 n = A2::from_shape({w.nnode(), w.ndim()});
    A1 d = A1::from_shape({ndof});
    for (size_t i = 0; i < ndof; ++i) {
        d(i) = zero_bit(0, i) ? 0.0 : static_cast<double>((i * 37 + 11) % 101) - 40.0;
    }
    for (size_t m = 0; m < w.nnode(); ++m) {
        for (size_t i = 0; i < w.ndim(); ++i) {
            n(m, i) = d(w.dofs(m, i));
            used[w.dofs(m, i)] = 1;
        }
    }
    A1 fi = A1::from_shape({nni}), fi0 = fi;
    for (size_t i = 0; i < nni; ++i) {
        fi0(i) = used[i] ? d(i) : 0.0;
        fi(i) = fi0(i);
        for (size_t q = 0; q < nnd; ++q) {
            if (used[nni + q]) {
                fi(i) += C[q][i] * d(nni + q);
            }
        }
    }
    A1 r = A1::from_shape({nni});
    r.fill(G1);
    X.close(v.AsDofs_i(n), fi, 1e-13, "AsDofs_i");
    v.asDofs_i(n, r);
    X.close(r, fi, 1e-13, "asDofs_i(default)");
    r.fill(G1);
    v.asDofs_i(n, r, true);
    X.close(r, fi, 1e-13, "asDofs_i(true)");
    r.fill(G1);
    v.asDofs_i(n, r, false);
    X.equal(r, fi0, "asDofs_i(false)");
    v.asDofs_i(n, r, true);
    X.close(r, fi, 1e-13, "asDofs_i(re-used)");

    forms(n, [&](const auto& x, const char* form) { X.close(v.AsDofs_i(x), fi, 1e-13, std::string("AsDofs_i, ") + form); });
    forms_out(X, fi0, G1, "asDofs_i(false)", [&](auto& q) { v.asDofs_i(n, q, false); });

    // copy_p for full-length and independent-length arrays
    if (w.ndof() == ndof) {
        for (int k = 0; k < 4; ++k) {
            A1 s = A1::from_shape({k & 1 ? nni : ndof}), t = A1::from_shape({k & 2 ? nni : ndof});
            for (size_t i = 0; i < s.size(); ++i) {
                s(i) = zero_bit(0, i) ? 0.0 : 5.0 + static_cast<double>(i);
            }
            for (size_t i = 0; i < t.size(); ++i) {
                t(i) = -5.0 - static_cast<double>(i);
            }
            A1 ex = t;
            for (size_t i = nnu; i < nni; ++i) {
                ex(i) = s(i);
            }
            v.copy_p(s, t);
            X.equal(t, ex, "copy_p");
        }
        X.equal(v.AsDofs(n), d_of(w, d, used), "AsDofs");
        X.equal(v.AsNode(d), n, "AsNode");
    }
    X.close(v0.AsDofs_i(n), fi, 1e-13, "original object");
}
#endif

static A1 dofdata(size_t n, double t, size_t k = 0)
{
    A1 r = A1::from_shape({n});
    for (size_t i = 0; i < n; ++i) { // three orders of magnitude
        r(i) = std::ldexp(t * (static_cast<double>((i * 5 + 3 + k) % 17) - 6.5), -static_cast<int>(i % 3) * 20);
    }
    return r;
}

static void magnitude(Explorer& X, const World& w)
{
    if (std::set<size_t>(w.dofs.begin(), w.dofs.end()).size() != w.ndof()) {
        return;
    }
    size_t n = w.ndof(), np = n / 3;
#ifdef V03
    S1 iip = S1::from_shape({np});
    for (size_t i = 0; i < np; ++i) {
        iip(i) = (n - 1) - 2 * i;
    }
    GooseFEM::VectorPartitioned v(w.conn, w.dofs, iip);
    homogeneous(X, [&](double, double t, auto put) {
        A1 d = dofdata(n, t), z = dofdata(n, t, 5);
        A2 nd = v.AsNode(d), nz = v.AsNode(z);
        A3 e = v.AsElement(d);
        A1 u = v.AsDofs_u(d), p = v.AsDofs_p(d);
        put(u, t, "AsDofs_u(dofval)");
        put(p, t, "AsDofs_p(dofval)");
        put(v.AsDofs_u(nd), t, "AsDofs_u(nodevec)");
        put(v.AsDofs_p(nd), t, "AsDofs_p(nodevec)");
        put(v.AsDofs_u(e), t, "AsDofs_u(elemvec)");
        put(v.AsDofs_p(e), t, "AsDofs_p(elemvec)");
        put(v.Copy_u(nd, nz), t, "Copy_u");
        put(v.Copy_p(nd, nz), t, "Copy_p");
        put(v.DofsFromParitioned(u, p), t, "DofsFromParitioned");
        put(v.NodeFromPartitioned(u, p), t, "NodeFromPartitioned");
        put(v.ElementFromPartitioned(u, p), t, "ElementFromPartitioned");
    });
#else
    size_t ndd = n / 4, nu = n - np - ndd, ni = nu + np;
    // the coefficients have a unit of their own, as the vectors have
    homogeneous(X, [&](double s, double t, auto put) {
        Eigen::SparseMatrix<double> Cdu(ndd, nu), Cdp(ndd, np), Cdi(ndd, ni);
        for (size_t d = 0; d < ndd; ++d) {
            for (size_t i = d % 2; i < ni; i += 2) {
                double c = std::ldexp(s * (static_cast<double>((d * 3 + i) % 5) + 1.0), -static_cast<int>((d + i) % 3) * 20);
                Cdi.insert(d, i) = c;
                if (i < nu) {
                    Cdu.insert(d, i) = c;
                }
                else {
                    Cdp.insert(d, i - nu) = c;
                }
            }
        }
        GooseFEM::VectorPartitionedTyings v(w.conn, w.dofs, Cdu, Cdp, Cdi);
        // independent part in units of "t", dependent part such that both contributions are comparable
        A1 x = dofdata(n, t);
        for (size_t i = ni; i < n; ++i) {
            x(i) /= s;
        }
        A2 nd = v.AsNode(x);
        put(v.AsDofs_i(nd), t, "AsDofs_i");
        A1 r = A1::from_shape({ni});
        v.asDofs_i(nd, r, false);
        put(r, t, "asDofs_i(no tyings)");
        A1 y = dofdata(n, t, 5);
        v.copy_p(x, y);
        for (size_t i = ni; i < n; ++i) {
            y(i) = 0.0;
        }
        put(y, t, "copy_p");
    });
#endif
}

int main(int argc, char** argv)
{
    Explorer X(argc, argv);
#ifdef V03
    enumerate(X);
    for (auto& w : few_dofs()) {
        for (size_t mask = 0; mask < (size_t(1) << w.ndof()); ++mask) {
            std::vector<size_t> iip;
            for (size_t i = 0; i < w.ndof(); ++i) {
                if (mask >> i & 1) {
                    iip.push_back(i);
                }
            }
            zero_patterns(w.ndof(), {0, 1}, [&]() {
                X.run([&]() { return "zeros " + w.str() + " iip=" + str(iip) + " pattern " + std::to_string(zero_mask()); }, [&]() { partitioned(X, w, iip); });
            });
        }
    }
    homogeneous_worlds([&](const World& w) {
        X.run([&]() { return "magnitude " + w.str(); }, [&]() { magnitude(X, w); });
    });
    return X.finish("all subsets of prescribed DOFs in several orders (all orders in the thorough tier) for all tiny connectivities and "
                    "DOF numberings; 5 subsets for real meshes x 6 numberings; results scale with the data by 2^-80 to 2^60; all patterns of zeros in the data");
#endif
#ifdef V04
    worlds(X.thorough, [&](const World& w) {
        size_t ndof = w.ndof();
        bool tiny = w.name.empty();
        for (size_t nnd = 0; nnd <= (tiny ? ndof : std::min<size_t>(ndof, 4)); ++nnd) {
            size_t nni = ndof - nnd;
            for (size_t nnp = 0; nnp <= (tiny ? nni : std::min<size_t>(nni, 3)); ++nnp) {
                size_t nnu = nni - nnp;
                size_t nc = nnd * nni;
                auto go = [&](const std::vector<size_t>& c) {
                    X.run([&]() { return w.str() + " nnu=" + std::to_string(nnu) + " nnp=" + std::to_string(nnp) + " nnd=" + std::to_string(nnd) + " coef=" + str(c); },
                          [&]() { tied(X, w, nnu, nnp, nnd, c); }, nc > 0);
                };
                if (tiny && nc > 0 && nc <= (X.thorough ? 4 : 2)) {
                    tuples(nc, 3, go);
                }
                else {
                    go({1, 0, 2, 1, 1});
                    go({0, 2, 0, 1, 0, 0, 1});
                }
            }
        }
    }, X.thorough ? 1 : 0);
    for (auto& w : few_dofs()) {
        size_t n = w.ndof();
        for (size_t nnd = 0; nnd <= n; ++nnd) {
            for (size_t nnp = 0; nnp + nnd <= n; ++nnp) {
                for (auto& c : std::vector<std::vector<size_t>>{{1}, {1, 0}, {0, 1}, {0, 0, 1, 2}, {0}}) {
                    zero_patterns(n, {0}, [&]() {
                        X.run([&]() {
                            return "zeros " + w.str() + " nnp=" + std::to_string(nnp) + " nnd=" + std::to_string(nnd) + " coef=" + str(c) + " pattern " + std::to_string(zero_mask());
                        }, [&]() { tied(X, w, n - nnd - nnp, nnp, nnd, c); });
                    });
                }
            }
        }
    }
    homogeneous_worlds([&](const World& w) {
        X.run([&]() { return "magnitude " + w.str(); }, [&]() { magnitude(X, w); });
    });
    return X.finish("all splits of the DOFs into unknown/prescribed/dependent, all coefficient patterns in {0,+,-} for up to 2 (4) coefficients, "
                    "two patterns beyond, for all tiny worlds and real meshes; results scale with data and coefficients by 2^-80 to 2^60; all patterns of zeros in the data");
#endif
}
