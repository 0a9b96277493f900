// M04 diagonal matrix (-DM04), M05 partitioned diagonal matrix (-DM05).
#include "linalg.h"
#include "homogeneous.h"
using namespace vh;

// the last group changes single entries only (or only their order): caches that detect changes must see them all
enum { AS0, AS1, SET0, SET1, SOLVE, DOT, COPY, ASSIGN, TW0, TW1, TW2, REV, ASTW, NOPS };
static const char* NAMES[] = {"assemble0", "assemble1", "set0", "set1", "solve", "dot", "copy", "assign", "set(one entry, DOF 0)", "set(one entry, DOF 1)", "set(one entry, last DOF)", "set(reversed)", "assemble(one entry)"};

static std::string word(const std::vector<size_t>& ops)
{
    std::string r;
    for (auto o : ops) {
        r += std::string(r.empty() ? "" : ";") + NAMES[o];
    }
    return r;
}

static A3 diagmat(const World& w, int kind)
{
    size_t N = w.nne() * w.ndim();
    A3 K = A3::from_shape({w.nelem(), N, N});
    K.fill(0.0);
    Lcg g(5 + static_cast<uint64_t>(kind));
    for (size_t e = 0; e < w.nelem(); ++e) {
        for (size_t a = 0; a < N; ++a) {
            K(e, a, a) = g.integer(1, 30);
        }
    }
    return K;
}

static std::vector<double> diag_ref(const World& w, const A3& K)
{
    std::vector<double> d(w.ndof(), 0.0);
    for (size_t e = 0; e < w.nelem(); ++e) {
        for (size_t m = 0; m < w.nne(); ++m) {
            for (size_t i = 0; i < w.ndim(); ++i) {
                d[w.dofs(w.conn(e, m), i)] += K(e, m * w.ndim() + i, m * w.ndim() + i);
            }
        }
    }
    return d;
}

static std::vector<double> setval(size_t n, int kind)
{
    std::vector<double> v(n);
    for (size_t i = 0; i < n; ++i) {
        v[i] = static_cast<double>((i * 7 + 3 + static_cast<size_t>(kind) * 5) % 13) + 1.0;
    }
    return v;
}

static double quot(double b, double a)
{
    return b / a;
}

#ifdef M04
using M = GooseFEM::MatrixDiagonal;
static M make(const World& w, const std::vector<size_t>&)
{
    return M(w.conn, w.dofs);
}
#else
using M = GooseFEM::MatrixDiagonalPartitioned;
static M make(const World& w, const std::vector<size_t>& iip)
{
    return M(w.conn, w.dofs, sarr(iip));
}
#endif

static void observe(Explorer& X, M& A, const World& w, const std::vector<double>& a, const std::vector<size_t>& iip, bool with_solve)
{
    size_t n = w.ndof();
    std::vector<int> used(n, 0), isp(n, 0);
    for (auto d : w.dofs) {
        used[d] = 1;
    }
    for (auto p : iip) {
        isp[p] = 1;
    }
    X.check(A.ndof() == n && A.nnode() == w.nnode() && A.nelem() == w.nelem(), "sizes");
    Dense ref = zeros2(n, n), got = A.Todense(), dirty = ref;
    A1 data = A.data();
    X.check(data.size() == n, "size of data()");
    A1 diag = A.Todiagonal();
    X.same_shape(diag.shape(), data.shape(), "Todiagonal()");
    dirty.fill(G1);
    A.todense(dirty);
    for (size_t i = 0; i < n; ++i) {
        ref(i, i) = used[i] ? a[i] : got(i, i);
        dirty(i, i) = used[i] ? dirty(i, i) : got(i, i);
        if (used[i]) {
            X.close1(data(i), a[i], 1e-13, "data()", i);
            X.close1(diag(i), a[i], 1e-13, "Todiagonal()", i);
        }
    }
    X.close(got, ref, 1e-13, "Todense");
    X.close(dirty, ref, 1e-13, "todense(dirty)");
    for (int k = 0; k < 2; ++k) {
        std::vector<double> x = probe(n, k), b(n);
        for (size_t i = 0; i < n; ++i) {
            b[i] = a[i] * x[i];
        }
        auto masked = [&](const A1& r, const std::vector<double>& e, const char* what) {
            X.check(r.size() == n, "size of ", what);
            for (size_t i = 0; i < n; ++i) {
                if (used[i]) {
                    X.close1(r(i), e[i], 1e-12, what, i);
                }
            }
        };
        A1 xd = arr(x), r = xd;
        masked(A.Dot(xd), b, "Dot(dofval)");
        r.fill(G1);
        A.dot(xd, r);
        masked(r, b, "dot(dofval, dirty)");
        A2 xn = nodal(w, x), rn = xn;
        rn.fill(G1);
        X.close(A.Dot(xn), nodal(w, b), 1e-12, "Dot(nodevec)");
        A.dot(xn, rn);
        X.close(rn, nodal(w, b), 1e-12, "dot(nodevec, dirty)");
        // products are per entry: nodal values need not be consistent
        A2 in = xn, ein = xn;
        for (size_t m = 0; m < w.nnode(); ++m) {
            for (size_t i = 0; i < w.ndim(); ++i) {
                in(m, i) = static_cast<double>(m * 3 + i) - 1.0;
                ein(m, i) = a[w.dofs(m, i)] * in(m, i);
            }
        }
#ifdef M05
        X.close(A.Dot(in), ein, 1e-12, "Dot(nodevec, inconsistent)");
        std::vector<size_t> iiu;
        for (size_t i = 0; i < n; ++i) {
            if (used[i] && !isp[i]) {
                iiu.push_back(i);
            }
        }
        size_t nu = iiu.size(), np = iip.size();
        X.check(A.nnu() == nu && A.nnp() == np, "nnu, nnp");
        X.equal(A.iiu(), sarr(iiu), "iiu");
        X.equal(A.iip(), sarr(iip), "iip");
        A1 au = A1::from_shape({nu}), ap = A1::from_shape({np}), xu = au, xp = ap, bu = au, bp = ap;
        for (size_t i = 0; i < nu; ++i) {
            au(i) = a[iiu[i]];
            xu(i) = x[iiu[i]];
            bu(i) = b[iiu[i]];
        }
        for (size_t i = 0; i < np; ++i) {
            ap(i) = a[iip[i]];
            xp(i) = x[iip[i]];
            bp(i) = b[iip[i]];
        }
        X.close(A.data_uu(), au, 1e-13, "data_uu");
        X.close(A.data_pp(), ap, 1e-13, "data_pp");
        A1 ru = au, rp = ap;
        ru.fill(G1);
        rp.fill(G1);
        X.close(A.Dot_u(xu, xp), bu, 1e-12, "Dot_u");
        A.dot_u(xu, xp, ru);
        X.close(ru, bu, 1e-12, "dot_u(dirty)");
        X.close(A.Dot_p(xu, xp), bp, 1e-12, "Dot_p");
        A.dot_p(xu, xp, rp);
        X.close(rp, bp, 1e-12, "dot_p(dirty)");
        rp.fill(G1);
        X.close(A.Reaction_p(xu, xp), bp, 1e-12, "Reaction_p");
        A.reaction_p(xu, xp, rp);
        X.close(rp, bp, 1e-12, "reaction_p(dirty)");
        std::vector<double> f = setval(n, 3), e = f;
        A2 fn = in, en = in;
        for (size_t i = 0; i < n; ++i) {
            if (isp[i]) {
                e[i] = b[i];
            }
        }
        for (size_t m = 0; m < w.nnode(); ++m) {
            for (size_t i = 0; i < w.ndim(); ++i) {
                if (isp[w.dofs(m, i)]) {
                    en(m, i) = b[w.dofs(m, i)];
                }
            }
        }
        A1 fd = arr(f);
        X.close(A.Reaction(xd, fd), arr(e), 1e-12, "Reaction(dofval)");
        X.close(A.Reaction(xn, fn), en, 1e-12, "Reaction(nodevec)");
        A.reaction(xd, fd);
        A.reaction(xn, fn);
        X.close(fd, arr(e), 1e-12, "reaction(dofval)");
        X.close(fn, en, 1e-12, "reaction(nodevec)");
        if (with_solve) {
            A1 s = A1::from_shape({nu}), q = A1::from_shape({nu});
            for (size_t i = 0; i < nu; ++i) {
                q(i) = quot(x[iiu[i]], a[iiu[i]]);
            }
            s.fill(G1);
            X.close(A.Solve_u(xu, xp), q, 1e-12, "Solve_u");
            A.solve_u(xu, xp, s);
            X.close(s, q, 1e-12, "solve_u(dirty)");
        }
#else
        X.close(A.Dot(in), ein, 1e-12, "Dot(nodevec, inconsistent)");
#endif
        if (with_solve) {
            std::vector<double> start = setval(n, 9), q = start;
            A2 sn = in, qn = in;
            for (size_t i = 0; i < n; ++i) {
                if (!isp[i]) {
                    q[i] = quot(x[i], a[i]);
                }
            }
            for (size_t m = 0; m < w.nnode(); ++m) {
                for (size_t i = 0; i < w.ndim(); ++i) {
                    if (!isp[w.dofs(m, i)]) {
                        qn(m, i) = quot(x[w.dofs(m, i)], a[w.dofs(m, i)]);
                    }
                }
            }
            A1 sd = arr(start);
            A.solve(xd, sd);
            masked(sd, q, "solve(dofval)");
            A.solve(xn, sn);
            X.close(sn, qn, 1e-12, "solve(nodevec)");
            A1 S = A.Solve(xd);
            A2 Sn = A.Solve(xn);
            X.check(S.size() == n, "Solve(dofval) size");
            X.same_shape(Sn.shape(), w.dofs.shape(), "Solve(nodevec)");
            for (size_t i = 0; i < n; ++i) {
                if (used[i] && !isp[i]) {
                    X.close1(S(i), q[i], 1e-12, "Solve(dofval)", i);
                }
            }
            for (size_t m = 0; m < w.nnode(); ++m) {
                for (size_t i = 0; i < w.ndim(); ++i) {
                    if (!isp[w.dofs(m, i)]) {
                        X.close1(Sn(m, i), qn(m, i), 1e-12, "Solve(nodevec)", m);
                    }
                }
            }
        }
    }
}

static void go(Explorer& X, const World& w, const std::vector<size_t>& iip, const std::vector<size_t>& ops)
{
    X.run([&]() { return w.str() + " iip=" + str(iip) + " history=" + word(ops); }, [&]() {
        size_t n = w.ndof();
        M A = make(w, iip);
        std::vector<double> a = setval(n, 7);
        A.set(arr(a));
        A3 last = diagmat(w, 0);
        for (auto op : ops) {
            ++X.transitions;
            switch (op) {
            case AS0:
            case AS1: {
                last = diagmat(w, op == AS0 ? 0 : 1);
                A.assemble(last);
                a = diag_ref(w, last);
                break;
            }
            case TW0:
            case TW1:
            case TW2:
                a[op == TW2 ? n - 1 : std::min(n - 1, op - TW0)] += 3.0;
                A.set(arr(a));
                break;
            case REV:
                std::reverse(a.begin(), a.end());
                A.set(arr(a));
                break;
            case ASTW:
                last(0, 0, 0) += 2.0;
                A.assemble(last);
                a = diag_ref(w, last);
                break;
            case SET0:
            case SET1:
                a = setval(n, op == SET0 ? 0 : 1);
                A.set(arr(a));
                break;
            case SOLVE:
                A.Solve(arr(probe(n, 2)));
                break;
            case DOT:
                A.Dot(nodal(w, probe(n, 2)));
                break;
            case COPY: {
                M B = A;
                A.set(arr(setval(n, 2)));
                A.Solve(arr(probe(n, 0)));
                A = make(w, iip);
                A = B;
                B.set(arr(setval(n, 4)));
                break;
            }
            case ASSIGN: {
                M B = make(w, iip);
                a = setval(n, 5);
                B.set(arr(a));
                B.Solve(arr(probe(n, 1)));
                A = std::move(B);
                break;
            }
            }
            uint64_t h = 99;
            for (auto v : a) {
                h = h * 1000003ull + static_cast<uint64_t>(v);
            }
            X.state(h * 4 + (op == SOLVE));
        }
        // DOFs without element have a zero diagonal after assembly: dividing by it is not meaningful
        bool solvable = true;
        for (auto d : w.dofs) {
            solvable = solvable && a[d] != 0.0;
        }
        observe(X, A, w, a, iip, solvable);
        if (!solvable) {
            ++X.counts["singular"];
        }
    }, !ops.empty());
}

static void magnitude(Explorer& X, const World& w)
{
    size_t n = w.ndof();
    if (present(w).size() != n) {
        return;
    }
    std::vector<size_t> iip;
    for (size_t i = 0; i < n / 3; ++i) {
        iip.push_back(n - 1 - 2 * i);
    }
    A3 K = elemmat(w, 0);
    for (size_t i = 0; i < K.size(); ++i) {
        size_t N = K.shape(1);
        K.data()[i] = (i / N) % N == i % N ? K.data()[i] : 0.0;
    }
    stored(X, w, K, [&]() { return make(w, iip); });
    homogeneous(X, [&](double s, double t, auto put) {
        M A = make(w, iip);
        A1 d = A1::from_shape({n}), x = arr(probe(n, 0)) * t, b = arr(probe(n, 1)) * s * t;
        A2 nx = nodal(w, probe(n, 0)) * t, nb = nodal(w, probe(n, 1)) * s * t;
        for (size_t i = 0; i < n; ++i) {
            d(i) = s * (1.0 + static_cast<double>(i % 5));
        }
        for (int k = 0; k < 2; ++k) {
            if (k == 0) {
                A.set(d);
            }
            else {
                A3 K = elemmat(w, 2);
                for (size_t e = 0; e < K.shape(0); ++e) {
                    for (size_t i = 0; i < K.shape(1); ++i) {
                        for (size_t j = 0; j < K.shape(2); ++j) {
                            K(e, i, j) = i == j ? K(e, i, j) * s : 0.0;
                        }
                    }
                }
                A.assemble(K);
            }
            put(A.Todense(), s, "Todense");
            put(A.Todiagonal(), s, "Todiagonal");
            put(A.data(), s, "data");
            put(A.Dot(x), s * t, "Dot(dofval)");
            put(A.Dot(nx), s * t, "Dot(nodevec)");
#ifdef M04
            put(A.Solve(b), t, "Solve(dofval)");
            put(A.Solve(nb), t, "Solve(nodevec)");
#else
            A1 xs = x;
            A2 nxs = nx;
            A.solve(b, xs);
            put(xs, t, "solve(dofval)");
            A.solve(nb, nxs);
            put(nxs, t, "solve(nodevec)");
            put(A.Reaction(x, b), s * t, "Reaction(dofval)");
            put(A.Reaction(nx, nb), s * t, "Reaction(nodevec)");
#endif
        }
    });
    // entries that differ by orders of magnitude
    M A = make(w, iip);
    A1 d = A1::from_shape({n});
    for (size_t i = 0; i < n; ++i) {
        d(i) = std::ldexp(1.0 + static_cast<double>(i % 5), (static_cast<int>(i % 4) - 1) * -35);
    }
    A.set(d);
    A1 b = arr(probe(n, 1)), g = A.Dot(b), z = arr(probe(n, 2));
#ifdef M04
    A1 q = A.Solve(b);
#else
    A1 q = z;
    A.solve(b, q);
#endif
    for (size_t i = 0; i < n; ++i) {
        X.check(std::abs(g(i) - d(i) * b(i)) <= 1e-12 * std::abs(d(i) * b(i)), "Dot (graded): entry ", i, " is ", g(i), " expected ", d(i) * b(i));
        bool p = false;
#ifdef M05
        p = std::find(iip.begin(), iip.end(), i) != iip.end();
#endif
        double e = p ? z(i) : b(i) / d(i);
        X.check(std::abs(q(i) - e) <= 1e-12 * std::abs(e), "Solve (graded): entry ", i, " is ", q(i), " expected ", e);
    }
}

// all patterns of zeros: in the vectors and on the diagonal
static void zeros(Explorer& X, const World& w, const std::vector<size_t>& iip)
{
    size_t n = w.ndof();
    for (size_t pattern = 0; pattern < (size_t(1) << n); ++pattern) {
        X.run([&]() { return "zeros " + w.str() + " iip=" + str(iip) + " diagonal=" + std::to_string(pattern); }, [&]() {
            zero_patterns(n, {0}, [&]() {
                ++X.transitions;
                std::vector<double> a = setval(n, 3);
                bool solvable = true;
                for (size_t i = 0; i < n; ++i) {
                    if (pattern >> i & 1) {
                        a[i] = 0.0;
                        solvable = solvable && std::find(iip.begin(), iip.end(), i) != iip.end(); // a solve divides by those that are unknown only
                    }
                }
                M A = make(w, iip);
                A.set(arr(a));
                observe(X, A, w, a, iip, solvable);
            });
        });
    }
}

int main(int argc, char** argv)
{
    Explorer X(argc, argv);
    std::vector<World> deep;
    {
        World w;
        w.conn = make2(2, 2, {0, 1, 1, 2});
        w.dofs = make2(3, 1, {2, 0, 1});
        deep.push_back(w);
        w.conn = make2(2, 1, {1, 0});
        w.dofs = make2(2, 2, {3, 0, 0, 2});
        deep.push_back(w);
    }
#ifdef M04
    size_t depth = X.thorough ? 6 : 5;
    for (auto& w : deep) {
        for (size_t n = 0; n <= depth; ++n) {
            tuples(n, NOPS, [&](const std::vector<size_t>& ops) { go(X, w, {}, ops); });
        }
    }
    worlds(X.thorough, [&](const World& w) {
        if (w.ndof() > 400) {
            return;
        }
        go(X, w, {}, {AS0});
        go(X, w, {}, {AS0, SOLVE, AS1});
        go(X, w, {}, {SOLVE, SET0});
    }, X.thorough ? 1 : 0);
    for (auto& w : few_dofs()) {
        zeros(X, w, {});
    }
    homogeneous_worlds([&](const World& w) {
        X.run([&]() { return "magnitude " + w.str(); }, [&]() { magnitude(X, w); });
    });
    return X.finish("all histories over 13 operations up to length " + std::to_string(depth) + " on 2 small worlds; 3 histories on every tiny world and real meshes x 6 numberings; entries and vectors in units of 2^-80 to 2^60 and of mixed magnitude; all patterns of zeros in the vector and on the diagonal on 3 worlds of 3 or 4 DOFs");
#else
    size_t depth = X.thorough ? 5 : 4;
    for (auto& w : deep) {
        prescribed(w, 4, [&](const std::vector<size_t>& iip) {
            for (size_t n = 0; n <= depth; ++n) {
                tuples(n, NOPS, [&](const std::vector<size_t>& ops) { go(X, w, iip, ops); });
            }
        });
    }
    worlds(X.thorough, [&](const World& w) {
        if (w.ndof() > 150) {
            return;
        }
        prescribed(w, 4, [&](const std::vector<size_t>& iip) {
            go(X, w, iip, {SOLVE, AS0});
            if (X.thorough) {
                go(X, w, iip, {AS0, SOLVE, SET0});
            }
        });
    }, X.thorough ? 1 : 0);
    for (auto& w : few_dofs()) {
        prescribed(w, 4, [&](const std::vector<size_t>& iip) { zeros(X, w, iip); });
    }
    homogeneous_worlds([&](const World& w) {
        X.run([&]() { return "magnitude " + w.str(); }, [&]() { magnitude(X, w); });
    });
    return X.finish("all histories over 13 operations up to length " + std::to_string(depth) + " for all sets of prescribed DOFs on 2 small worlds; solve-then-assemble for all sets of prescribed DOFs on every tiny world, 4 sets on real meshes x 6 numberings; entries and vectors in units of 2^-80 to 2^60 and of mixed magnitude; all patterns of zeros in the vector and on the diagonal on 3 worlds of 3 or 4 DOFs");
#endif
}
