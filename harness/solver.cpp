// M02: histories over several matrices and several solvers; every solve must use the present value of its matrix.
#include "linalg.h"
#include "homogeneous.h"
using namespace vh;

// Alphabet. Two matrices A, B of the same system, a third C of a different size, two solvers s, t.
enum { A_AS, A_MOD, B_AS, B_MOD, A_EQ_B, B_EQ_A, SWAP, A_EQ_C, S_A, S_B, T_A, T_B, S_Z, S_C, FRESH, A_TW0, A_TW1, A_TW2, A_TWP, A_SC, NOPS };
// the last group changes single entries only (or the scale): whatever detects changes must see them all
static const char* NAMES[] = {"A.assemble", "A.modify", "B.assemble", "B.modify", "A=B", "B=A", "swap(A,B)", "A=C",
                              "s.solve(A)", "s.solve(B)", "t.solve(A)", "t.solve(B)", "s.solve(A, no load)", "s.solve(C)", "s=new", "A.tweak(0)", "A.tweak(1)", "A.tweak(last)", "A.tweak(pair)", "A.scale"};

static std::string word(const std::vector<size_t>& ops)
{
    std::string r;
    for (auto o : ops) {
        r += std::string(r.empty() ? "" : ";") + NAMES[o];
    }
    return r;
}

struct System {
    World w;
    std::vector<size_t> iip; // partitioned
    size_t nnu = 0, nnp = 0, nnd = 0; // tied
    Eigen::SparseMatrix<double> Cdu, Cdp;
    Dense C; // [nnd, nni]
    A3 K[3];
    Block mod;
};

// add a small matrix, of DOFs d (and e, if different, all four entries) to a matrix that is stored as element matrices
static Block tweak_block(const World& w, size_t op)
{
    Block b;
    size_t n = w.ndof();
    // DOFs of the first and last component of the first and last element: always coupled
    size_t m = op == A_TW2 ? w.nelem() - 1 : 0;
    size_t d = op == A_TW1 ? w.dofs(w.conn(m, 1), 0) : w.dofs(w.conn(m, op == A_TW2 ? 1 : 0), w.ndim() - 1);
    (void)n;
    std::vector<size_t> r = {d};
    if (op == A_TWP) {
        r.push_back(w.dofs(w.conn(0, 1), 0));
    }
    b.rows = sarr(r);
    b.cols = sarr(r);
    b.val = A2::from_shape({r.size(), r.size()});
    b.val.fill(1.5);
    for (size_t i = 0; i < r.size(); ++i) {
        b.val(i, i) = 2.0;
    }
    return b;
}

// each family: make, modify, dense bookkeeping, solve (several call variants)
struct Plain {
    using M = GooseFEM::Matrix;
    template <class S> using Solver = GooseFEM::MatrixSolver<S>;
    static const char* name() { return "Matrix"; }
    static M make(const System& s) { return M(s.w.conn, s.w.dofs); }
    static void modify(M& A, Dense& ref, const System& s)
    {
        A.add(s.mod.rows, s.mod.cols, s.mod.val);
        apply_block(ref, s.mod);
    }
    static void tweak(M& A, Dense& ref, const System& s, size_t op)
    {
        if (op == A_SC) { // all entries, by replacing the matrix
            ref *= 0.5;
            auto all = xt::xtensor<size_t, 1>::from_shape({s.w.ndof()});
            std::iota(all.begin(), all.end(), 0);
            A.set(all, all, ref);
            return;
        }
        Block b = tweak_block(s.w, op);
        A.add(b.rows, b.cols, b.val);
        apply_block(ref, b);
    }
    template <class S>
    static void solve(Explorer& X, Solver<S>& S_, M& A, const Dense& ref, const System& s, size_t variant)
    {
        std::vector<double> b = probe(s.w.ndof(), static_cast<int>(variant % 3)), x;
        if (!dense_solve(ref, b, x)) {
            X.fail("harness: singular");
        }
        if (variant % 4 == 0) {
            X.close(S_.Solve(A, nodal(s.w, b)), nodal(s.w, x), 1e-9, "Solve(nodevec)");
        }
        else if (variant % 4 == 1) {
            X.close(S_.Solve(A, arr(b)), arr(x), 1e-9, "Solve(dofval)");
        }
        else if (variant % 4 == 2) {
            A2 r = nodal(s.w, b);
            r.fill(G1);
            S_.solve(A, nodal(s.w, b), r);
            X.close(r, nodal(s.w, x), 1e-9, "solve(nodevec)");
        }
        else {
            A1 r = arr(b);
            r.fill(G1);
            S_.solve(A, arr(b), r);
            X.close(r, arr(x), 1e-9, "solve(dofval)");
        }
    }
};

struct Partitioned {
    using M = GooseFEM::MatrixPartitioned;
    template <class S> using Solver = GooseFEM::MatrixPartitionedSolver<S>;
    static const char* name() { return "MatrixPartitioned"; }
    static M make(const System& s) { return M(s.w.conn, s.w.dofs, sarr(s.iip)); }
    static void modify(M& A, Dense& ref, const System& s)
    {
        A.add(s.mod.rows, s.mod.cols, s.mod.val);
        apply_block(ref, s.mod);
    }
    static void tweak(M& A, Dense& ref, const System& s, size_t op)
    {
        if (op == A_SC) { // all entries, by replacing the matrix
            ref *= 0.5;
            auto all = xt::xtensor<size_t, 1>::from_shape({s.w.ndof()});
            std::iota(all.begin(), all.end(), 0);
            A.set(all, all, ref);
            return;
        }
        Block b = tweak_block(s.w, op);
        A.add(b.rows, b.cols, b.val);
        apply_block(ref, b);
    }
    template <class S>
    static void solve(Explorer& X, Solver<S>& S_, M& A, const Dense& ref, const System& s, size_t variant)
    {
        size_t n = s.w.ndof();
        std::vector<double> b = probe(n, static_cast<int>(variant % 3)), x0 = probe(n, static_cast<int>((variant + 1) % 3)), xu, rhs;
        std::vector<size_t> iiu;
        for (size_t d = 0; d < n; ++d) {
            if (std::find(s.iip.begin(), s.iip.end(), d) == s.iip.end()) {
                iiu.push_back(d);
            }
        }
        Dense Auu = zeros2(iiu.size(), iiu.size());
        for (size_t i = 0; i < iiu.size(); ++i) {
            rhs.push_back(b[iiu[i]]);
            for (size_t j = 0; j < iiu.size(); ++j) {
                Auu(i, j) = ref(iiu[i], iiu[j]);
            }
            for (auto p : s.iip) {
                rhs[i] -= ref(iiu[i], p) * x0[p];
            }
        }
        if (!dense_solve(Auu, rhs, xu)) {
            X.fail("harness: singular");
        }
        std::vector<double> x = x0;
        A1 bu = A1::from_shape({iiu.size()}), xp = A1::from_shape({s.iip.size()});
        for (size_t i = 0; i < iiu.size(); ++i) {
            x[iiu[i]] = xu[i];
            bu(i) = b[iiu[i]];
        }
        for (size_t i = 0; i < s.iip.size(); ++i) {
            xp(i) = x0[s.iip[i]];
        }
        if (variant % 4 == 0) {
            X.close(S_.Solve(A, nodal(s.w, b), nodal(s.w, x0)), nodal(s.w, x), 1e-9, "Solve(nodevec)");
        }
        else if (variant % 4 == 1) {
            X.close(S_.Solve(A, arr(b), arr(x0)), arr(x), 1e-9, "Solve(dofval)");
        }
        else if (variant % 4 == 2) {
            X.close(S_.Solve_u(A, bu, xp), arr(xu), 1e-9, "Solve_u");
        }
        else {
            A2 r = nodal(s.w, x0);
            S_.solve(A, nodal(s.w, b), r);
            X.close(r, nodal(s.w, x), 1e-9, "solve(nodevec)");
        }
    }
};

struct Tied {
    using M = GooseFEM::MatrixPartitionedTyings;
    template <class S> using Solver = GooseFEM::MatrixPartitionedTyingsSolver<S>;
    static const char* name() { return "MatrixPartitionedTyings"; }
    static M make(const System& s) { return M(s.w.conn, s.w.dofs, s.Cdu, s.Cdp); }
    static void modify(M& A, Dense& ref, const System& s)
    {
        A.assemble(s.K[2]);
        ref = dense_assemble(s.w, s.K[2]);
    }
    // the present matrix as element matrices: every entry goes to the first element that couples its DOFs
    static A3 split(const Dense& ref, const World& w)
    {
        size_t N = w.nne() * w.ndim();
        A3 K = A3::from_shape({w.nelem(), N, N});
        K.fill(0.0);
        Dense left = ref;
        for (size_t e = 0; e < w.nelem(); ++e) {
            for (size_t a = 0; a < N; ++a) {
                for (size_t b = 0; b < N; ++b) {
                    size_t i = w.dofs(w.conn(e, a / w.ndim()), a % w.ndim()), j = w.dofs(w.conn(e, b / w.ndim()), b % w.ndim());
                    K(e, a, b) = left(i, j);
                    left(i, j) = 0.0;
                }
            }
        }
        return K;
    }
    static void tweak(M& A, Dense& ref, const System& s, size_t op)
    {
        if (op == A_SC) {
            ref *= 0.5;
        }
        else {
            apply_block(ref, tweak_block(s.w, op));
        }
        A.assemble(split(ref, s.w));
    }
    template <class S>
    static void solve(Explorer& X, Solver<S>& S_, M& A, const Dense& ref, const System& s, size_t variant)
    {
        // T = [I; C]: x = T x_i;  T^T A T x_i = T^T b on unknowns
        size_t n = s.w.ndof(), ni = s.nnu + s.nnp;
        Dense T = zeros2(n, ni), R = zeros2(ni, ni);
        for (size_t i = 0; i < ni; ++i) {
            T(i, i) = 1.0;
        }
        for (size_t d = 0; d < s.nnd; ++d) {
            for (size_t i = 0; i < ni; ++i) {
                T(ni + d, i) = s.C(d, i);
            }
        }
        for (size_t a = 0; a < ni; ++a) {
            for (size_t b = 0; b < ni; ++b) {
                for (size_t i = 0; i < n; ++i) {
                    for (size_t j = 0; j < n; ++j) {
                        R(a, b) += T(i, a) * ref(i, j) * T(j, b);
                    }
                }
            }
        }
        std::vector<double> b = probe(n, static_cast<int>(variant % 3)), x0 = probe(n, static_cast<int>((variant + 1) % 3)), rhs(s.nnu, 0.0), xu;
        Dense Ruu = zeros2(s.nnu, s.nnu);
        for (size_t i = 0; i < s.nnu; ++i) {
            for (size_t q = 0; q < n; ++q) {
                rhs[i] += T(q, i) * b[q];
            }
            for (size_t j = 0; j < s.nnu; ++j) {
                Ruu(i, j) = R(i, j);
            }
            for (size_t p = s.nnu; p < ni; ++p) {
                rhs[i] -= R(i, p) * x0[p];
            }
        }
        if (!dense_solve(Ruu, rhs, xu)) {
            X.fail("harness: singular");
        }
        std::vector<double> xi(ni);
        for (size_t i = 0; i < ni; ++i) {
            xi[i] = i < s.nnu ? xu[i] : x0[i];
        }
        std::vector<double> x = matvec(T, xi);
        A1 bu = A1::from_shape({s.nnu}), bd = A1::from_shape({s.nnd}), xp = A1::from_shape({s.nnp});
        for (size_t i = 0; i < s.nnu; ++i) {
            bu(i) = b[i];
        }
        for (size_t i = 0; i < s.nnd; ++i) {
            bd(i) = b[ni + i];
        }
        for (size_t i = 0; i < s.nnp; ++i) {
            xp(i) = x0[s.nnu + i];
        }
        if (variant % 4 == 0) {
            X.close(S_.Solve(A, nodal(s.w, b), nodal(s.w, x0)), nodal(s.w, x), 1e-9, "Solve(nodevec)");
        }
        else if (variant % 4 == 1) {
            X.close(S_.Solve(A, arr(b), arr(x0)), arr(x), 1e-9, "Solve(dofval)");
        }
        else if (variant % 4 == 2) {
            X.close(S_.Solve_u(A, bu, bd, xp), arr(xu), 1e-9, "Solve_u");
        }
        else {
            A2 r = nodal(s.w, x0);
            S_.solve(A, nodal(s.w, b), r);
            X.close(r, nodal(s.w, x), 1e-9, "solve(nodevec)");
        }
    }
};

static System make_system(int size, int kind)
{
    System s;
    if (size == 0) {
        s.w.conn = make2(2, 2, {0, 1, 1, 2});
        s.w.dofs = make2(3, 1, {0, 1, 2});
        s.iip = {1};
    }
    else {
        s.w.conn = make2(2, 2, {0, 1, 1, 2});
        s.w.dofs = make2(3, 2, {4, 1, 2, 3, 0, 5});
        s.iip = {3, 0};
    }
    (void)kind;
    size_t n = s.w.ndof();
    s.nnd = 1;
    s.nnp = 1;
    s.nnu = n - 2;
    size_t ni = s.nnu + s.nnp;
    s.C = zeros2(1, ni);
    s.C(0, 0) = 2.0;
    s.C(0, s.nnu) = -1.0;
    s.Cdu.resize(1, static_cast<int>(s.nnu));
    s.Cdp.resize(1, 1);
    s.Cdu.insert(0, 0) = 2.0;
    s.Cdp.insert(0, 0) = -1.0;
    s.K[0] = elemmat(s.w, 2);
    s.K[1] = elemmat(s.w, 3);
    s.K[2] = elemmat(s.w, 4);
    s.mod = block(s.w, 4);
    return s;
}

template <class F, class S>
static void run(Explorer& X, const System sys[2], const std::vector<size_t>& ops, const std::string& sname)
{
    // histories in which nothing is solved carry no obligation
    size_t solves = 0;
    for (auto o : ops) {
        solves += o >= S_A && o <= S_C;
    }
    if (solves == 0) {
        return;
    }
    X.run([&]() { return std::string(F::name()) + " " + sname + " history=" + word(ops); }, [&]() {
        using M = typename F::M;
        M A = F::make(sys[0]), B = F::make(sys[0]), C = F::make(sys[1]);
        Dense a = dense_assemble(sys[0].w, sys[0].K[0]), b = dense_assemble(sys[0].w, sys[0].K[1]), c = dense_assemble(sys[1].w, sys[1].K[0]);
        A.assemble(sys[0].K[0]);
        B.assemble(sys[0].K[1]);
        C.assemble(sys[1].K[0]);
        zero_mask() = 0;
        const System* sa = &sys[0];
        const System* sb = &sys[0];
        using So = typename F::template Solver<S>;
        auto s = std::make_unique<So>(), t = std::make_unique<So>();
        int sv = 0, tv = 0; // which value each solver saw last (for the state count)
        size_t k = 0;
        for (auto op : ops) {
            ++X.transitions;
            ++k;
            switch (op) {
            case A_AS:
                A.assemble(sa->K[1]);
                a = dense_assemble(sa->w, sa->K[1]);
                break;
            case A_MOD:
                F::modify(A, a, *sa);
                break;
            case B_AS:
                B.assemble(sb->K[0]);
                b = dense_assemble(sb->w, sb->K[0]);
                break;
            case B_MOD:
                F::modify(B, b, *sb);
                break;
            case A_EQ_B:
                A = B;
                a = b;
                sa = sb;
                break;
            case B_EQ_A: {
                M tmp(A);
                B = tmp;
                b = a;
                sb = sa;
                break;
            }
            case SWAP:
                std::swap(A, B);
                std::swap(a, b);
                std::swap(sa, sb);
                break;
            case A_EQ_C:
                A = C;
                a = c;
                sa = &sys[1];
                break;
            case S_A:
                F::template solve<S>(X, *s, A, a, *sa, k + ops.size());
                sv = 1;
                break;
            case S_B:
                F::template solve<S>(X, *s, B, b, *sb, k + ops.size());
                sv = 2;
                break;
            case T_A:
                F::template solve<S>(X, *t, A, a, *sa, k + ops.size());
                tv = 1;
                break;
            case T_B:
                F::template solve<S>(X, *t, B, b, *sb, k + ops.size());
                tv = 2;
                break;
            case S_Z:
                zero_mask() = ~uint64_t(0);
                F::template solve<S>(X, *s, A, a, *sa, k + ops.size());
                zero_mask() = 0;
                sv = 1;
                break;
            case S_C:
                F::template solve<S>(X, *s, C, c, sys[1], k);
                sv = 3;
                break;
            case A_TW0:
            case A_TW1:
            case A_TW2:
            case A_TWP:
            case A_SC:
                F::tweak(A, a, *sa, op);
                break;
            case FRESH:
                s = std::make_unique<So>();
                sv = 0;
                break;
            }
            X.state(hash_dense(b, hash_dense(a, static_cast<uint64_t>(sv * 4 + tv) * 77 + F::name()[6])));
        }
    }, solves > 1);
}

// one solver for all units: what was factorised in another unit must not be taken for the present matrix
template <class S>
static void magnitude(Explorer& X, const World& w)
{
    size_t n = w.ndof();
    if (present(w).size() != n) {
        return;
    }
    GooseFEM::MatrixSolver<S> solver;
    GooseFEM::Matrix A(w.conn, w.dofs);
    std::vector<size_t> iip;
    for (size_t i = 0; i < n / 3; ++i) {
        iip.push_back(n - 1 - 2 * i);
    }
    GooseFEM::MatrixPartitionedSolver<S> psolver;
    GooseFEM::MatrixPartitioned P(w.conn, w.dofs, sarr(iip));
    homogeneous(X, [&](double s, double t, auto put) {
        A1 x = arr(probe(n, 0)) * t, b = arr(probe(n, 1)) * s * t;
        A2 nx = nodal(w, probe(n, 0)) * t, nb = nodal(w, probe(n, 1)) * s * t;
        for (int kind : {2, 3}) {
            A.assemble(A3(elemmat(w, kind) * s));
            P.assemble(A3(elemmat(w, kind) * s));
            put(solver.Solve(A, b), t, "Solve(dofval)");
            put(solver.Solve(A, nb), t, "Solve(nodevec)");
            put(psolver.Solve(P, b, x), t, "partitioned Solve(dofval)");
            put(psolver.Solve(P, nb, nx), t, "partitioned Solve(nodevec)");
        }
    });
}

int main(int argc, char** argv)
{
    Explorer X(argc, argv);
    System sys[2] = {make_system(0, 0), make_system(1, 0)};
    using LDLT = Eigen::SimplicialLDLT<Eigen::SparseMatrix<double>>;
    using LU = Eigen::SparseLU<Eigen::SparseMatrix<double>>;
    size_t depth = X.thorough ? 6 : 5;
    for (size_t n = 1; n <= depth; ++n) {
        tuples(n, NOPS, [&](const std::vector<size_t>& ops) {
            // prefixes ending in a modification repeat what shorter words covered: only words that end in a solve
            if (ops.back() < S_A || ops.back() > S_C) {
                return;
            }
            run<Plain, LDLT>(X, sys, ops, "LDLT");
            run<Partitioned, LDLT>(X, sys, ops, "LDLT");
            run<Tied, LDLT>(X, sys, ops, "LDLT");
            if (n <= 3) {
                run<Plain, LU>(X, sys, ops, "LU");
                run<Partitioned, LU>(X, sys, ops, "LU");
                run<Tied, LU>(X, sys, ops, "LU");
            }
        });
    }
    homogeneous_worlds([&](const World& w) {
        X.run([&]() { return "magnitude " + w.str(); }, [&]() {
            magnitude<LDLT>(X, w);
            magnitude<LU>(X, w);
        });
    });
    return X.finish("all histories up to length " + std::to_string(depth) +
                    " over 20 operations on three matrices (two of equal size, one larger) and two solvers, ending in a solve; plain, partitioned "
                    "and tied families with LDLT (and LU up to length 3); every solve in the history is compared with a dense solution; matrices and vectors in units of 2^-80 to 2^60");
}
