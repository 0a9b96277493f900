// M01 operation histories of Matrix (-DM01), M03 of MatrixPartitioned (-DM03).
#include "linalg.h"
#include "homogeneous.h"
using namespace vh;

// ------------------------------------------------------------------------------------------------
// One history: a word over {assemble 0/1/2, set 0/1/4, add 0/1/2/3, copy, assign, products}.
enum { AS0, AS2, SET0, SET1, ADD0, ADD1, ADD2, COPY, ASSIGN, SETE, ADDE, ADDC, NOPS };
static const char* NAMES[] = {"assemble0", "assemble2", "set0", "set1", "add0", "add1", "add2", "copy", "assign", "set(empty)", "add(empty)", "add(opposite)"};

static std::string word(const std::vector<size_t>& ops)
{
    std::string r;
    for (auto o : ops) {
        r += std::string(r.empty() ? "" : ";") + NAMES[o];
    }
    return r;
}

template <class M>
static void observe_full(Explorer& X, M& A, const World& w, const Dense& ref)
{
    size_t n = w.ndof();
    X.check(A.ndof() == n && A.nelem() == w.nelem() && A.nne() == w.nne() && A.nnode() == w.nnode() && A.ndim() == w.ndim(), "sizes");
    X.close(A.Todense(), ref, 1e-12, "Todense");
    Dense dirty = zeros2(n, n);
    dirty.fill(G1);
    A.todense(dirty);
    X.close(dirty, ref, 1e-12, "todense(dirty)");
    std::vector<int> used(n, 0);
    for (auto d : w.dofs) {
        used[d] = 1;
    }
    for (int k = 0; k < 2; ++k) {
        std::vector<double> x = probe(n, k), b = matvec(ref, x);
        A1 xd = arr(x), rd = arr(x), ed = arr(b);
        rd.fill(G1);
        A1 got = A.Dot(xd);
        A.dot(xd, rd);
        X.same_shape(got.shape(), ed.shape(), "Dot(dofval)");
        for (size_t i = 0; i < n; ++i) {
            if (used[i]) { // numbers that no node uses carry no meaning
                X.close1(got(i), ed(i), 1e-12, "Dot(dofval)", i);
                X.close1(rd(i), ed(i), 1e-12, "dot(dofval, dirty)", i);
            }
        }
        std::vector<double> xn = x;
        for (size_t i = 0; i < n; ++i) {
            xn[i] = used[i] ? x[i] : 0.0;
        }
        A2 nx = nodal(w, xn), en = nodal(w, matvec(ref, xn)), rn = nx;
        rn.fill(G1);
        X.close(A.Dot(nx), en, 1e-12, "Dot(nodevec)");
        A.dot(nx, rn);
        X.close(rn, en, 1e-12, "dot(nodevec, dirty)");
        X.equal(xd, arr(x), "argument of dot modified");
    }
}

// f(A, ref): observe
template <class Make, class Obs>
static void history(Explorer& X, const World& w, const std::vector<size_t>& ops, Make&& make, Obs&& obs)
{
    auto A = make();
    using M = decltype(A);
    Dense ref = zeros2(w.ndof(), w.ndof());
    for (auto op : ops) {
        ++X.transitions;
        switch (op) {
        case AS0:
        case AS2: {
            A3 K = elemmat(w, op == AS0 ? 0 : 2);
            A.assemble(K);
            ref = dense_assemble(w, K);
            break;
        }
        case SET0:
        case SET1: {
            Block b = block(w, op == SET0 ? 0 : 1);
            A.set(b.rows, b.cols, b.val);
            ref.fill(0.0);
            apply_block(ref, b);
            break;
        }
        case ADD0:
        case ADD1:
        case ADD2: {
            Block b = block(w, op == ADD0 ? 0 : op == ADD1 ? 1 : 2);
            A.add(b.rows, b.cols, b.val);
            apply_block(ref, b);
            break;
        }
        case SETE:
        case ADDE: { // no rows, no columns, or neither
            xt::xtensor<size_t, 1> none = xt::xtensor<size_t, 1>::from_shape({0}), some = xt::xtensor<size_t, 1>::from_shape({1});
            some(0) = w.dofs(0, 0);
            A2 rc = A2::from_shape({0, 1}), cr = A2::from_shape({1, 0}), zz = A2::from_shape({0, 0});
            if (op == SETE) {
                if (ops.size() % 3 == 0) {
                    A.set(none, none, zz);
                }
                else if (ops.size() % 3 == 1) {
                    A.set(none, some, rc);
                }
                else {
                    A.set(some, none, cr);
                }
                ref.fill(0.0);
            }
            else {
                A.add(none, none, zz);
                A.add(some, none, cr);
                A.add(none, some, rc);
            }
            break;
        }
        case ADDC: { // cancels block 0 if it was there: explicit zeros are values like any other
            Block b = block(w, 0);
            b.val = -b.val;
            A.add(b.rows, b.cols, b.val);
            apply_block(ref, b);
            break;
        }
        case COPY: {
            M B = A;
            Block b = block(w, 1);
            A.add(b.rows, b.cols, b.val); // modifying the original must not affect the copy
            A = make();
            A = std::move(B);
            break;
        }
        case ASSIGN: {
            M B = make();
            A3 K = elemmat(w, 1);
            B.assemble(K);
            A = B;
            ref = dense_assemble(w, K);
            B.assemble(elemmat(w, 3));
            break;
        }
        }
        X.state(hash_dense(ref, w.ndof()));
    }
    obs(A, ref);
}

#ifdef M01
static void go(Explorer& X, const World& w, const std::vector<size_t>& ops)
{
    X.run([&]() { return w.str() + " history=" + word(ops); }, [&]() {
        history(X, w, ops, [&]() { return GooseFEM::Matrix(w.conn, w.dofs); },
            [&](GooseFEM::Matrix& A, const Dense& ref) {
                observe_full(X, A, w, ref);
                check_sparse(X, A.data(), w.ndof(), w.ndof(), "data()", [&](size_t i, size_t j) { return ref(i, j); });
            });
    }, !ops.empty());
}
#endif

#ifdef M03
using MP = GooseFEM::MatrixPartitioned;
using LDLT = GooseFEM::MatrixPartitionedSolver<>;
using LU = GooseFEM::MatrixPartitionedSolver<Eigen::SparseLU<Eigen::SparseMatrix<double>>>;

static std::vector<size_t> unknowns(const World& w, const std::vector<size_t>& iip)
{
    std::vector<size_t> r;
    for (auto d : present(w)) {
        if (std::find(iip.begin(), iip.end(), d) == iip.end()) {
            r.push_back(d);
        }
    }
    return r;
}

template <class Solver>
static void solves(Explorer& X, MP& A, const World& w, const Dense& ref, const std::vector<size_t>& iiu, const std::vector<size_t>& iip, const std::string& name)
{
    size_t n = w.ndof(), nu = iiu.size();
    std::vector<int> used(n, 0);
    for (auto d : w.dofs) {
        used[d] = 1;
    }
    for (int k = 0; k < 2; ++k) {
        std::vector<double> b = probe(n, k), xp = probe(n, 2 - k), rhs(nu), xu;
        for (size_t i = 0; i < n; ++i) {
            if (!used[i]) {
                b[i] = xp[i] = 0.0;
            }
        }
        Dense Auu = zeros2(nu, nu);
        for (size_t i = 0; i < nu; ++i) {
            rhs[i] = b[iiu[i]];
            for (size_t j = 0; j < nu; ++j) {
                Auu(i, j) = ref(iiu[i], iiu[j]);
            }
            for (auto p : iip) {
                rhs[i] -= ref(iiu[i], p) * xp[p];
            }
        }
        if (!dense_solve(Auu, rhs, xu)) {
            ++X.counts["singular"];
            return;
        }
        std::vector<double> x = xp;
        for (size_t i = 0; i < nu; ++i) {
            x[iiu[i]] = xu[i];
        }
        Solver S;
        const double tol = 1e-9;
        A2 bn = nodal(w, b), xn = nodal(w, xp), en = nodal(w, x);
        A2 xn0 = xn;
        X.close(S.Solve(A, bn, xn), en, tol, name + " Solve(nodevec)");
        X.equal(xn, xn0, "Solve modified its argument");
        for (auto d : iiu) {
            xp[d] = 1e9; // initial values of the unknowns are irrelevant
        }
        xn = nodal(w, xp);
        S.solve(A, bn, xn);
        X.close(xn, en, tol, name + " solve(nodevec)");
        A1 bd = arr(b), xd = arr(xp), ed = arr(x);
        A1 r = S.Solve(A, bd, xd);
        S.solve(A, bd, xd);
        for (size_t i = 0; i < n; ++i) {
            if (used[i]) {
                X.close1(r(i), ed(i), tol, name + " Solve(dofval)", i);
                X.close1(xd(i), ed(i), tol, name + " solve(dofval)", i);
            }
        }
        // entries of prescribed DOFs are exactly as given
        for (auto p : iip) {
            X.check(r(p) == xp[p] && xd(p) == xp[p], "prescribed value changed");
        }
        A1 bu = A1::from_shape({nu}), eu = arr(xu), pp = A1::from_shape({iip.size()}), ru = bu;
        for (size_t i = 0; i < nu; ++i) {
            bu(i) = b[iiu[i]];
        }
        for (size_t i = 0; i < iip.size(); ++i) {
            pp(i) = xp[iip[i]];
        }
        ru.fill(G1);
        X.close(S.Solve_u(A, bu, pp), eu, tol, name + " Solve_u");
        S.solve_u(A, bu, pp, ru);
        X.close(ru, eu, tol, name + " solve_u(dirty)");
        // after the solve the reaction is the full product on prescribed DOFs
        std::vector<double> f = matvec(ref, x);
        A1 rb = A.Reaction(ed, bd);
        for (size_t i = 0; i < n; ++i) {
            if (used[i]) {
                X.close1(rb(i), std::find(iip.begin(), iip.end(), i) == iip.end() ? b[i] : f[i], tol, name + " Reaction after Solve", i);
                if (std::find(iip.begin(), iip.end(), i) == iip.end()) {
                    X.close1(f[i], b[i], tol, name + " residual", i);
                }
            }
        }
    }
}

static void observe_mp(Explorer& X, MP& A, const World& w, const Dense& ref, const std::vector<size_t>& iip)
{
    std::vector<size_t> iiu = unknowns(w, iip);
    size_t nu = iiu.size(), np = iip.size(), n = w.ndof();
    X.check(A.nnu() == nu && A.nnp() == np, "nnu, nnp");
    X.equal(A.iip(), sarr(iip), "iip");
    X.equal(A.iiu(), sarr(iiu), "iiu");
    observe_full(X, A, w, ref);
    check_sparse(X, A.data_uu(), nu, nu, "data_uu", [&](size_t i, size_t j) { return ref(iiu[i], iiu[j]); });
    check_sparse(X, A.data_up(), nu, np, "data_up", [&](size_t i, size_t j) { return ref(iiu[i], iip[j]); });
    check_sparse(X, A.data_pu(), np, nu, "data_pu", [&](size_t i, size_t j) { return ref(iip[i], iiu[j]); });
    check_sparse(X, A.data_pp(), np, np, "data_pp", [&](size_t i, size_t j) { return ref(iip[i], iip[j]); });
    // reactions
    std::vector<int> used(n, 0);
    for (auto d : w.dofs) {
        used[d] = 1;
    }
    std::vector<double> x = probe(n, 0), b = probe(n, 1);
    for (size_t i = 0; i < n; ++i) {
        if (!used[i]) {
            x[i] = 0.0;
        }
    }
    std::vector<double> f = matvec(ref, x), e = b;
    A1 ep = A1::from_shape({np}), xu = A1::from_shape({nu}), xp = A1::from_shape({np}), rp = ep;
    for (size_t i = 0; i < np; ++i) {
        e[iip[i]] = f[iip[i]];
        ep(i) = f[iip[i]];
        xp(i) = x[iip[i]];
    }
    for (size_t i = 0; i < nu; ++i) {
        xu(i) = x[iiu[i]];
    }
    // nodal right-hand side with values that are not even consistent per DOF: unknown entries must be kept
    A2 bn = A2::from_shape({w.nnode(), w.ndim()}), en = bn;
    for (size_t m = 0; m < w.nnode(); ++m) {
        for (size_t i = 0; i < w.ndim(); ++i) {
            bn(m, i) = 100.0 + static_cast<double>(m * 10 + i);
            en(m, i) = std::find(iip.begin(), iip.end(), w.dofs(m, i)) == iip.end() ? bn(m, i) : f[w.dofs(m, i)];
        }
    }
    A1 bd = arr(b);
    X.close(A.Reaction(arr(x), bd), arr(e), 1e-12, "Reaction(dofval)");
    X.close(A.Reaction(nodal(w, x), bn), en, 1e-12, "Reaction(nodevec)");
    A.reaction(arr(x), bd);
    X.close(bd, arr(e), 1e-12, "reaction(dofval)");
    A.reaction(nodal(w, x), bn);
    X.close(bn, en, 1e-12, "reaction(nodevec)");
    rp.fill(G1);
    X.close(A.Reaction_p(xu, xp), ep, 1e-12, "Reaction_p");
    A.reaction_p(xu, xp, rp);
    X.close(rp, ep, 1e-12, "reaction_p(dirty)");
    // general (non-symmetric) system
    if (nu > 0) {
        solves<LU>(X, A, w, ref, iiu, iip, "LU");
    }
    // symmetric positive definite unknown block: make it so by setting Auu, keeping the other blocks arbitrary
    Block s = block(w, 4);
    for (auto p : iip) {
        for (size_t i = 0; i < s.rows.size(); ++i) {
            for (size_t j = 0; j < s.cols.size(); ++j) {
                if (s.cols(j) == p) {
                    s.val(i, j) = static_cast<double>((i * 3 + j) % 7) - 2.0;
                }
            }
        }
    }
    A.set(s.rows, s.cols, s.val);
    Dense r2 = zeros2(n, n);
    apply_block(r2, s);
    solves<LDLT>(X, A, w, r2, iiu, iip, "LDLT");
}

static void go(Explorer& X, const World& w, const std::vector<size_t>& iip, const std::vector<size_t>& ops)
{
    X.run([&]() { return w.str() + " iip=" + str(iip) + " history=" + word(ops); }, [&]() {
        history(X, w, ops, [&]() { return MP(w.conn, w.dofs, sarr(iip)); }, [&](MP& A, const Dense& ref) {
            observe_mp(X, A, w, ref, iip);
        });
    }, !iip.empty() && iip.size() < present(w).size());
}
#endif

// matrices and vectors in all units, and matrices of which the elements differ by orders of magnitude
static void magnitude(Explorer& X, const World& w)
{
    size_t n = w.ndof();
    if (present(w).size() != n) {
        return;
    }
    Block blk = block(w, 0);
#ifdef M01
    auto make = [&]() { return GooseFEM::Matrix(w.conn, w.dofs); };
#else
    std::vector<size_t> iip;
    for (size_t i = 0; i < n / 3; ++i) {
        iip.push_back(n - 1 - 2 * i);
    }
    auto make = [&]() { return GooseFEM::MatrixPartitioned(w.conn, w.dofs, sarr(iip)); };
#endif
    stored(X, w, elemmat(w, 0), make);
    homogeneous(X, [&](double s, double t, auto put) {
        auto A = make();
        A1 x = arr(probe(n, 0)) * t, b = arr(probe(n, 1)) * s * t;
        A2 nx = nodal(w, probe(n, 0)) * t, nb = nodal(w, probe(n, 1)) * s * t;
        A.set(blk.rows, blk.cols, A2(blk.val * s));
        put(A.Todense(), s, "Todense after set");
        A.add(blk.cols, blk.rows, A2(blk.val * s));
        put(A.Todense(), s, "Todense after add");
        A.assemble(A3(elemmat(w, 2) * s));
        put(A.Todense(), s, "Todense");
        put(A.Dot(x), s * t, "Dot(dofval)");
        put(A.Dot(nx), s * t, "Dot(nodevec)");
#ifdef M03
        put(A.Reaction(x, b), s * t, "Reaction(dofval)");
        put(A.Reaction(nx, nb), s * t, "Reaction(nodevec)");
        GooseFEM::MatrixPartitionedSolver<> S;
        put(S.Solve(A, b, x), t, "Solve(dofval)");
        put(S.Solve(A, nb, nx), t, "Solve(nodevec)");
#endif
    });
    for (int kind : {0, 1}) {
        A3 K = graded(elemmat(w, kind));
        auto A = make();
        A.assemble(K);
        Dense ref = dense_assemble(w, K), terms = dense_assemble(w, A3(xt::abs(K)));
        close_graded(X, Dense(A.Todense()), ref, terms, "Todense (graded)");
        Dense D = zeros2(n, n);
        for (size_t j = 0; j < n; ++j) { // column by column
            A1 e = A1::from_shape({n});
            e.fill(0.0);
            e(j) = 1.0;
            A1 c = A.Dot(e);
            for (size_t i = 0; i < n; ++i) {
                D(i, j) = c(i);
            }
        }
        close_graded(X, D, ref, terms, "Dot (graded)");
    }
}

// all patterns of zeros: in the vectors and in the blocks of the matrix
static void zeros(Explorer& X, const World& w, const std::vector<size_t>& iip)
{
    size_t n = w.ndof();
    std::vector<int> isp(n, 0);
    for (auto p : iip) {
        isp[p] = 1;
    }
    for (size_t pattern = 0; pattern < 16; ++pattern) {
        if (iip.empty() && pattern >= 2) {
            break; // only one block
        }
        X.run([&]() { return "zeros " + w.str() + " iip=" + str(iip) + " blocks=" + std::to_string(pattern); }, [&]() {
            zero_patterns(n, {0, 2}, [&]() {
                ++X.transitions;
                Block b = block(w, pattern & 1 ? 4 : 0);
                for (size_t i = 0; i < b.rows.size(); ++i) {
                    for (size_t j = 0; j < b.cols.size(); ++j) {
                        int k = isp[b.rows(i)] * 2 + isp[b.cols(j)];
                        if (!(pattern >> k & 1)) {
                            b.val(i, j) = 0.0;
                        }
                        else if (k > 0) {
                            b.val(i, j) = static_cast<double>((i * 3 + j) % 7) - 2.5;
                        }
                    }
                }
                Dense ref = zeros2(n, n);
                apply_block(ref, b);
#ifdef M01
                GooseFEM::Matrix A(w.conn, w.dofs);
                A.set(b.rows, b.cols, b.val);
                observe_full(X, A, w, ref);
                GooseFEM::MatrixSolver<Eigen::SparseLU<Eigen::SparseMatrix<double>>> S;
                std::vector<double> f = probe(n, 0), x;
                if (dense_solve(ref, f, x)) {
                    A1 r = arr(x);
                    r.fill(G1);
                    X.close(S.Solve(A, arr(f)), arr(x), 1e-9, "Solve(dofval)");
                    S.solve(A, arr(f), r);
                    X.close(r, arr(x), 1e-9, "solve(dofval, dirty)");
                    A2 rn = nodal(w, x);
                    rn.fill(G1);
                    S.solve(A, nodal(w, f), rn);
                    X.close(rn, nodal(w, x), 1e-9, "solve(nodevec, dirty)");
                }
#else
                for (int stored = 0; stored < 2; ++stored) { // zeros that are stored, and entries that are not there
                    MP A(w.conn, w.dofs, sarr(iip));
                    if (stored) {
                        A.set(b.rows, b.cols, b.val);
                    }
                    else {
                        for (size_t i = 0; i < b.rows.size(); ++i) {
                            for (size_t j = 0; j < b.cols.size(); ++j) {
                                if (b.val(i, j) != 0.0) {
                                    A2 v = A2::from_shape({1, 1});
                                    v(0, 0) = b.val(i, j);
                                    A.add(sarr({b.rows(i)}), sarr({b.cols(j)}), v);
                                }
                            }
                        }
                    }
                    observe_mp(X, A, w, ref, iip);
                }
#endif
            });
        });
    }
}

int main(int argc, char** argv)
{
    Explorer X(argc, argv);
    // worlds for long histories
    std::vector<World> deep;
    {
        World w;
        w.conn = make2(2, 2, {0, 1, 1, 2});
        w.dofs = make2(3, 1, {2, 0, 1});
        deep.push_back(w);
        w.conn = make2(2, 1, {1, 0});
        w.dofs = make2(2, 2, {3, 0, 0, 2});
        deep.push_back(w);
        w.conn = make2(1, 2, {1, 1});
        w.dofs = make2(2, 2, {1, 0, 1, 2});
        deep.push_back(w);
    }
#ifdef M01
    size_t depth = X.thorough ? 6 : 5;
    for (auto& w : deep) {
        for (size_t n = 0; n <= depth; ++n) {
            tuples(n, NOPS, [&](const std::vector<size_t>& ops) { go(X, w, ops); });
        }
    }
    worlds(X.thorough, [&](const World& w) {
        for (auto& ops : std::vector<std::vector<size_t>>{{AS0}, {SET0, ADD2}, {AS2, ADD0, AS0, ADD2}, {AS0, ADD1, COPY, SET1}}) {
            if (!w.name.empty() && w.ndof() > 250 && ops.size() > 1) {
                continue;
            }
            go(X, w, ops);
        }
    }, X.thorough ? 1 : 0);
    for (auto& w : few_dofs()) {
#ifdef M01
        zeros(X, w, {});
#else
        prescribed(w, 4, [&](const std::vector<size_t>& iip) { zeros(X, w, iip); });
#endif
    }
    homogeneous_worlds([&](const World& w) {
        X.run([&]() { return "magnitude " + w.str(); }, [&]() { magnitude(X, w); });
    });
    return X.finish("all histories over 12 operations (assemble x2, set x3, add x5, copy, assign) up to length " + std::to_string(depth) +
                    " on 3 small worlds; 4 histories on every tiny world (all connectivities and numberings) and on real meshes x 6 numberings; matrices and vectors in units of 2^-80 to 2^60, and of which the elements differ by orders of magnitude; all patterns of zeros in the vectors x all patterns of zero blocks on 3 worlds of 3 or 4 DOFs");
#endif
#ifdef M03
    size_t depth = X.thorough ? 5 : 4;
    for (auto& w : deep) {
        prescribed(w, 4, [&](const std::vector<size_t>& iip) {
            for (size_t n = 0; n <= depth; ++n) {
                tuples(n, NOPS, [&](const std::vector<size_t>& ops) { go(X, w, iip, ops); });
            }
        });
    }
    worlds(X.thorough, [&](const World& w) {
        if (w.ndof() > (X.thorough ? 150 : 60)) {
            return;
        }
        prescribed(w, 4, [&](const std::vector<size_t>& iip) {
            go(X, w, iip, {AS2, ADD2});
            if (w.name.empty() && w.ndof() <= 4 && X.thorough) {
                go(X, w, iip, {SET0, ADD2});
                go(X, w, iip, {AS0, ADD1, AS2});
            }
        });
    }, X.thorough ? 1 : 0);
    for (auto& w : few_dofs()) {
#ifdef M01
        zeros(X, w, {});
#else
        prescribed(w, 4, [&](const std::vector<size_t>& iip) { zeros(X, w, iip); });
#endif
    }
    homogeneous_worlds([&](const World& w) {
        X.run([&]() { return "magnitude " + w.str(); }, [&]() { magnitude(X, w); });
    });
    return X.finish("all histories over 12 operations up to length " + std::to_string(depth) +
                    " for all sets of prescribed DOFs on 3 small worlds; assemble-and-add for all sets of prescribed DOFs on every tiny world and for 4 sets on real meshes x 6 numberings; LU and LDLT solves, right-hand sides x2; matrices and vectors in units of 2^-80 to 2^60, and of which the elements differ by orders of magnitude; all patterns of zeros in the vectors x all patterns of zero blocks on 3 worlds of 3 or 4 DOFs");
#endif
}
