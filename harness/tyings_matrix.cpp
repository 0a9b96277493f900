// M06: tied system, all splits and coefficient patterns.
#include "linalg.h"
#include "homogeneous.h"
using namespace vh;
using M = GooseFEM::MatrixPartitionedTyings;
using LDLT = GooseFEM::MatrixPartitionedTyingsSolver<>;
using LU = GooseFEM::MatrixPartitionedTyingsSolver<Eigen::SparseLU<Eigen::SparseMatrix<double>>>;

struct Split {
    size_t nnu, nnp, nnd;
    Dense C;
    size_t nni() const { return nnu + nnp; }
    size_t n() const { return nnu + nnp + nnd; }
};

template <class Solver>
static void solves(Explorer& X, M& A, const World& w, const Dense& ref, const Split& s, const std::string& name)
{
    size_t n = s.n(), ni = s.nni();
    std::vector<int> used(n, 0);
    for (auto d : w.dofs) {
        used[d] = 1;
    }
    Dense T = zeros2(n, ni), R = zeros2(ni, ni);
    for (size_t i = 0; i < ni; ++i) {
        T(i, i) = 1.0;
    }
    for (size_t d = 0; d < s.nnd; ++d) {
        for (size_t i = 0; i < ni; ++i) {
            T(ni + d, i) = s.C(d, i);
        }
    }
    Dense AT = zeros2(n, ni);
    for (size_t i = 0; i < n; ++i) {
        for (size_t b = 0; b < ni; ++b) {
            for (size_t j = 0; j < n; ++j) {
                AT(i, b) += ref(i, j) * T(j, b);
            }
        }
    }
    for (size_t a = 0; a < ni; ++a) {
        for (size_t b = 0; b < ni; ++b) {
            for (size_t i = 0; i < n; ++i) {
                R(a, b) += T(i, a) * AT(i, b);
            }
        }
    }
    Solver S;
    for (int k = 0; k < 2; ++k) {
        std::vector<double> b = probe(n, k), x0 = probe(n, 2 - k), rhs(s.nnu, 0.0), xu;
        for (size_t i = 0; i < n; ++i) {
            if (!used[i]) {
                b[i] = x0[i] = 0.0;
            }
        }
        Dense Ruu = zeros2(s.nnu, s.nnu);
        for (size_t i = 0; i < s.nnu; ++i) {
            for (size_t q = 0; q < n; ++q) {
                rhs[i] += T(q, i) * b[q];
            }
            for (size_t j = 0; j < s.nnu; ++j) {
                Ruu(i, j) = R(i, j);
            }
            for (size_t p = s.nnu; p < ni; ++p) {
                rhs[i] -= R(i, p) * x0[p];
            }
        }
        if (!dense_solve(Ruu, rhs, xu)) {
            ++X.counts["singular"];
            return;
        }
        ++X.counts["solved"];
        std::vector<double> xi(ni);
        for (size_t i = 0; i < ni; ++i) {
            xi[i] = i < s.nnu ? xu[i] : x0[i];
        }
        std::vector<double> x = matvec(T, xi), start = x0;
        for (size_t i = 0; i < n; ++i) {
            if (i < s.nnu || i >= ni) {
                start[i] = 1e9; // what unknown and dependent DOFs held before is irrelevant
            }
        }
        const double tol = 1e-8;
        A2 bn = nodal(w, b), sn = nodal(w, start), sn0 = sn, en = nodal(w, x);
        X.close(S.Solve(A, bn, sn), en, tol, name + " Solve(nodevec)");
        X.equal(sn, sn0, "Solve modified its argument");
        S.solve(A, bn, sn);
        X.close(sn, en, tol, name + " solve(nodevec)");
        A1 bd = arr(b), sd = arr(start), ed = arr(x);
        X.close(S.Solve(A, bd, sd), ed, tol, name + " Solve(dofval)");
        S.solve(A, bd, sd);
        X.close(sd, ed, tol, name + " solve(dofval)");
        for (size_t p = s.nnu; p < ni; ++p) {
            X.check(sd(p) == start[p], "prescribed value changed");
        }
        A1 b_u = A1::from_shape({s.nnu}), b_d = A1::from_shape({s.nnd}), x_p = A1::from_shape({s.nnp}), r = b_u;
        for (size_t i = 0; i < s.nnu; ++i) {
            b_u(i) = b[i];
        }
        for (size_t i = 0; i < s.nnd; ++i) {
            b_d(i) = b[ni + i];
        }
        for (size_t i = 0; i < s.nnp; ++i) {
            x_p(i) = x0[s.nnu + i];
        }
        r.fill(G1);
        X.close(S.Solve_u(A, b_u, b_d, x_p), arr(xu), tol, name + " Solve_u");
        S.solve_u(A, b_u, b_d, x_p, r);
        X.close(r, arr(xu), tol, name + " solve_u(dirty)");
    }
}

static void go(Explorer& X, const World& w, const Split& s, const std::string& desc)
{
    X.run([&]() { return w.str() + desc; }, [&]() {
        size_t ni = s.nni();
        Eigen::SparseMatrix<double> Cdu(s.nnd, s.nnu), Cdp(s.nnd, s.nnp);
        for (size_t d = 0; d < s.nnd; ++d) {
            for (size_t i = 0; i < ni; ++i) {
                if (s.C(d, i) != 0.0) {
                    if (i < s.nnu) {
                        Cdu.insert(d, i) = s.C(d, i);
                    }
                    else {
                        Cdp.insert(d, i - s.nnu) = s.C(d, i);
                    }
                }
            }
        }
        M A0(w.conn, w.dofs, Cdu, Cdp);
        A0.assemble(elemmat(w, 1));
        M A = A0;
        A0.assemble(elemmat(w, 0)); // the copy is independent
        for (int kind : {1, 0, 2}) {
            if (kind != 1) {
                A.assemble(elemmat(w, kind));
            }
            ++X.transitions;
            Dense ref = dense_assemble(w, elemmat(w, kind));
            X.state(hash_dense(ref, hash_dense(s.C, s.nnu * 16 + s.nnp)));
            X.check(A.nnu() == s.nnu && A.nnp() == s.nnp && A.nni() == ni && A.nnd() == s.nnd && A.ndof() == s.n(), "sizes");
            X.equal(A.iiu(), S1(xt::arange<size_t>(0, s.nnu)), "iiu");
            X.equal(A.iip(), S1(xt::arange<size_t>(s.nnu, ni)), "iip");
            X.equal(A.iii(), S1(xt::arange<size_t>(0, ni)), "iii");
            X.equal(A.iid(), S1(xt::arange<size_t>(ni, s.n())), "iid");
            X.close(A.Todense(), ref, 1e-12, "Todense");
            Dense dirty = ref;
            dirty.fill(G1);
            A.todense(dirty);
            X.close(dirty, ref, 1e-12, "todense(dirty)");
            size_t o[3] = {0, s.nnu, ni}, c[3] = {s.nnu, s.nnp, s.nnd};
            auto blk = [&](int i, int j, const Eigen::SparseMatrix<double>& m, const char* nm) {
                check_sparse(X, m, c[i], c[j], nm, [&](size_t a, size_t b) { return ref(o[i] + a, o[j] + b); });
            };
            blk(0, 0, A.data_uu(), "data_uu");
            blk(0, 1, A.data_up(), "data_up");
            blk(0, 2, A.data_ud(), "data_ud");
            blk(1, 0, A.data_pu(), "data_pu");
            blk(1, 1, A.data_pp(), "data_pp");
            blk(1, 2, A.data_pd(), "data_pd");
            blk(2, 0, A.data_du(), "data_du");
            blk(2, 1, A.data_dp(), "data_dp");
            blk(2, 2, A.data_dd(), "data_dd");
            if (s.nnu > 0) {
                solves<LU>(X, A, w, ref, s, "LU");
            }
            if (kind == 2 && s.nnu > 0) {
                solves<LDLT>(X, A, w, ref, s, "LDLT");
            }
        }
    }, s.nnd > 0 && s.nnu > 0);
}

static void magnitude(Explorer& X, const World& w)
{
    size_t n = w.ndof();
    if (present(w).size() != n) {
        return;
    }
    size_t np = n / 4, nd = n / 4, nu = n - np - nd, ni = nu + np;
    // "c": coefficients of very different size in one relation (a tiny one must not be dropped)
    for (int c : {0, 30}) {
        Eigen::SparseMatrix<double> Cdu(nd, nu), Cdp(nd, np);
        for (size_t d = 0; d < nd; ++d) {
            for (size_t i = d % 2; i < ni; i += 2) {
                double v = std::ldexp(static_cast<double>((d * 3 + i) % 5) + 1.0, -static_cast<int>((d + i) % 3) * c);
                if (i < nu) {
                    Cdu.insert(d, i) = v;
                }
                else {
                    Cdp.insert(d, i - nu) = v;
                }
            }
        }
        if (c == 0) {
            stored(X, w, elemmat(w, 0), [&]() { return M(w.conn, w.dofs, Cdu, Cdp); });
        }
        homogeneous(X, [&](double s, double t, auto put) {
            M A(w.conn, w.dofs, Cdu, Cdp);
            A.assemble(A3(elemmat(w, 2) * s));
            A1 x = arr(probe(n, 0)) * t, b = arr(probe(n, 1)) * s * t;
            A2 nx = nodal(w, probe(n, 0)) * t, nb = nodal(w, probe(n, 1)) * s * t;
            put(A.Todense(), s, "Todense");
            if (nu == 0) {
                return;
            }
            LDLT S;
            put(S.Solve(A, nb, nx), t, "Solve(nodevec)");
            put(S.Solve(A, b, x), t, "Solve(dofval)");
            A1 bu = xt::view(b, xt::range(0, nu)), bd = xt::view(b, xt::range(ni, n)), xp = xt::view(x, xt::range(nu, ni));
            put(S.Solve_u(A, bu, bd, xp), t, "Solve_u");
        });
    }
    for (int kind : {0, 1}) {
        A3 K = graded(elemmat(w, kind));
        M A(w.conn, w.dofs, Eigen::SparseMatrix<double>(nd, nu), Eigen::SparseMatrix<double>(nd, np));
        A.assemble(K);
        close_graded(X, Dense(A.Todense()), dense_assemble(w, K), dense_assemble(w, A3(xt::abs(K))), "Todense (graded)");
    }
}

// all patterns of zeros in the vectors, zero blocks, and all patterns of zero coefficients
static void zeros(Explorer& X, const World& w, size_t nnu, size_t nnp, size_t nnd)
{
    Split s;
    s.nnu = nnu;
    s.nnp = nnp;
    s.nnd = nnd;
    size_t n = s.n(), ni = s.nni(), nc = nnd * ni;
    auto part = [&](size_t d) { return d < nnu ? 0 : d < ni ? 1 : 2; };
    for (size_t coef = 0; coef < (size_t(1) << nc); ++coef) {
        s.C = zeros2(nnd, ni);
        Eigen::SparseMatrix<double> Cdu(nnd, nnu), Cdp(nnd, nnp);
        for (size_t d = 0; d < nnd; ++d) {
            for (size_t i = 0; i < ni; ++i) {
                if (coef >> (d * ni + i) & 1) {
                    s.C(d, i) = 0.5 + static_cast<double>(d + i);
                    if (i < nnu) {
                        Cdu.insert(d, i) = s.C(d, i);
                    }
                    else {
                        Cdp.insert(d, i - nnu) = s.C(d, i);
                    }
                }
            }
        }
        // blocks that couple the three groups: all present, none, each absent (with its transpose)
        for (size_t pattern : {7, 0, 6, 5, 3, 15, 8}) {
            X.run([&]() {
                return "zeros " + w.str() + " nnu=" + std::to_string(nnu) + " nnp=" + std::to_string(nnp) + " nnd=" + std::to_string(nnd) + " C=" + str(s.C) + " blocks=" + std::to_string(pattern);
            }, [&]() {
                A3 K = elemmat(w, pattern & 8 ? 0 : 2);
                for (size_t e = 0; e < w.nelem(); ++e) {
                    for (size_t a = 0; a < K.shape(1); ++a) {
                        for (size_t b = 0; b < K.shape(2); ++b) {
                            int i = part(w.dofs(w.conn(e, a / w.ndim()), a % w.ndim())), j = part(w.dofs(w.conn(e, b / w.ndim()), b % w.ndim()));
                            if (i != j && !(pattern >> (i + j - 1) & 1)) {
                                K(e, a, b) = 0.0;
                            }
                        }
                    }
                }
                M A(w.conn, w.dofs, Cdu, Cdp);
                A.assemble(K);
                Dense ref = dense_assemble(w, K);
                zero_patterns(n, {0, 2}, [&]() {
                    ++X.transitions;
                    if (pattern & 8) {
                        solves<LU>(X, A, w, ref, s, "LU");
                    }
                    else {
                        solves<LDLT>(X, A, w, ref, s, "LDLT");
                    }
                });
            }, nnd > 0);
        }
    }
}

int main(int argc, char** argv)
{
    Explorer X(argc, argv);
    worlds(X.thorough, [&](const World& w) {
        // the tied matrix requires a complete numbering
        if (present(w).size() != w.ndof() || w.ndof() > (X.thorough ? 100 : 40)) {
            return;
        }
        size_t ndof = w.ndof();
        bool tiny = w.name.empty();
        for (size_t nnd = 0; nnd <= (tiny ? ndof : std::min<size_t>(ndof, 4)); ++nnd) {
            size_t nni = ndof - nnd;
            for (size_t nnp = 0; nnp <= (tiny ? nni : std::min<size_t>(nni, 3)); ++nnp) {
                Split s;
                s.nnd = nnd;
                s.nnp = nnp;
                s.nnu = nni - nnp;
                size_t nc = nnd * nni;
                auto with = [&](const std::vector<size_t>& c) {
                    s.C = zeros2(nnd, nni);
                    for (size_t k = 0; k < nc; ++k) {
                        size_t v = c[k % c.size()];
                        s.C.data()[k] = v == 0 ? 0.0 : v == 1 ? 1.0 + static_cast<double>(k % 3) : -0.5;
                    }
                    go(X, w, s, " nnu=" + std::to_string(s.nnu) + " nnp=" + std::to_string(nnp) + " nnd=" + std::to_string(nnd) + " C=" + str(s.C));
                };
                if (tiny && nc > 0 && nc <= (X.thorough ? 4 : 3)) {
                    tuples(nc, 3, with);
                }
                else {
                    with({1, 0, 2, 1, 1});
                    with({0, 2, 0, 1, 0, 0, 1});
                }
            }
        }
    }, X.thorough ? 1 : 0);
    for (auto& w : few_dofs()) {
        size_t n = w.ndof();
        for (size_t nnd = 0; nnd < n; ++nnd) {
            for (size_t nnp = 0; nnp + nnd < n; ++nnp) {
                zeros(X, w, n - nnd - nnp, nnp, nnd);
            }
        }
    }
    homogeneous_worlds([&](const World& w) {
        X.run([&]() { return "magnitude " + w.str(); }, [&]() { magnitude(X, w); });
    });
    return X.finish("all splits into unknown/prescribed/dependent DOFs, all coefficient patterns {0,+,-} for up to 3 (4) coefficients and two patterns "
                    "beyond, for every tiny world with a complete numbering and real meshes x 6 numberings; three successive assemblies, LU and LDLT, loads on all DOFs; matrices and vectors in units of 2^-80 to 2^60 and matrices of mixed magnitude; all patterns of zeros in loads and prescribed values x all patterns of zero coefficients x zero blocks on 3 worlds of 3 or 4 DOFs");
}
