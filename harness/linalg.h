// Dense reference linear algebra and the operation alphabet shared by the matrix harnesses.
#ifndef VERIF_LINALG_H
#define VERIF_LINALG_H
#include "world.h"

namespace vh {

static const double G1 = -7.25e300;

using Dense = A2;

inline Dense zeros2(size_t n, size_t m)
{
    Dense r = Dense::from_shape({n, m});
    r.fill(0.0);
    return r;
}

// Gaussian elimination with partial pivoting; returns false if (numerically) singular
inline bool dense_solve(Dense A, std::vector<double> b, std::vector<double>& x)
{
    size_t n = b.size();
    for (size_t k = 0; k < n; ++k) {
        size_t p = k;
        for (size_t i = k + 1; i < n; ++i) {
            if (std::abs(A(i, k)) > std::abs(A(p, k))) {
                p = i;
            }
        }
        if (std::abs(A(p, k)) < 1e-9) {
            return false;
        }
        if (p != k) {
            for (size_t j = 0; j < n; ++j) {
                std::swap(A(p, j), A(k, j));
            }
            std::swap(b[p], b[k]);
        }
        for (size_t i = k + 1; i < n; ++i) {
            double f = A(i, k) / A(k, k);
            if (f == 0.0) {
                continue;
            }
            for (size_t j = k; j < n; ++j) {
                A(i, j) -= f * A(k, j);
            }
            b[i] -= f * b[k];
        }
    }
    x.assign(n, 0.0);
    for (size_t k = n; k-- > 0;) {
        double s = b[k];
        for (size_t j = k + 1; j < n; ++j) {
            s -= A(k, j) * x[j];
        }
        x[k] = s / A(k, k);
    }
    return true;
}

inline std::vector<double> matvec(const Dense& A, const std::vector<double>& x)
{
    std::vector<double> b(A.shape(0), 0.0);
    for (size_t i = 0; i < A.shape(0); ++i) {
        for (size_t j = 0; j < A.shape(1); ++j) {
            b[i] += A(i, j) * x[j];
        }
    }
    return b;
}

inline A1 arr(const std::vector<double>& v)
{
    A1 r = A1::from_shape({v.size()});
    std::copy(v.begin(), v.end(), r.begin());
    return r;
}

inline A2 nodal(const World& w, const std::vector<double>& d)
{
    A2 n = A2::from_shape({w.nnode(), w.ndim()});
    for (size_t m = 0; m < w.nnode(); ++m) {
        for (size_t i = 0; i < w.ndim(); ++i) {
            n(m, i) = d[w.dofs(m, i)];
        }
    }
    return n;
}

// Element matrices: kind 0/1: not symmetric, distinct integers; 2/3: symmetric positive definite
inline A3 elemmat(const World& w, int kind)
{
    size_t N = w.nne() * w.ndim();
    A3 K = A3::from_shape({w.nelem(), N, N});
    Lcg g(17 + static_cast<uint64_t>(kind));
    for (size_t e = 0; e < w.nelem(); ++e) {
        for (size_t a = 0; a < N; ++a) {
            for (size_t b = 0; b < N; ++b) {
                K(e, a, b) = g.integer(-4, 4);
                if (kind >= 2 && b < a) {
                    K(e, a, b) = K(e, b, a);
                }
            }
        }
        for (size_t a = 0; a < N; ++a) {
            if (kind >= 2) {
                K(e, a, a) = 5.0 * static_cast<double>(N) + g.integer(0, 5);
            }
        }
    }
    return K;
}

inline Dense dense_assemble(const World& w, const A3& K)
{
    Dense A = zeros2(w.ndof(), w.ndof());
    for (size_t e = 0; e < w.nelem(); ++e) {
        for (size_t m = 0; m < w.nne(); ++m) {
            for (size_t i = 0; i < w.ndim(); ++i) {
                for (size_t n = 0; n < w.nne(); ++n) {
                    for (size_t j = 0; j < w.ndim(); ++j) {
                        A(w.dofs(w.conn(e, m), i), w.dofs(w.conn(e, n), j)) += K(e, m * w.ndim() + i, n * w.ndim() + j);
                    }
                }
            }
        }
    }
    return A;
}

// A block of entries for set/add
struct Block {
    S1 rows, cols;
    A2 val;
};

inline S1 sarr(const std::vector<size_t>& v)
{
    S1 r = S1::from_shape({v.size()});
    std::copy(v.begin(), v.end(), r.begin());
    return r;
}

inline void apply_block(Dense& A, const Block& b)
{
    for (size_t i = 0; i < b.rows.size(); ++i) {
        for (size_t j = 0; j < b.cols.size(); ++j) {
            A(b.rows(i), b.cols(j)) += b.val(i, j);
        }
    }
}

// DOFs that occur in the numbering, ordered
inline std::vector<size_t> present(const World& w)
{
    std::set<size_t> s(w.dofs.begin(), w.dofs.end());
    return std::vector<size_t>(s.begin(), s.end());
}

// kind 0: all present DOFs reversed x all present DOFs, dense, not symmetric
// kind 1: one entry (last, first)
// kind 2: repeated rows and columns (accumulation within one call)
// kind 3: diagonal (positive), kind 4: symmetric positive definite dense
inline Block block(const World& w, int kind)
{
    std::vector<size_t> p = present(w), r = p, c = p;
    if (kind == 0) {
        std::reverse(r.begin(), r.end());
    }
    else if (kind == 1) {
        r = {p.back()};
        c = {p.front()};
    }
    else if (kind == 2) {
        r = {p.front(), p.back(), p.front()};
        c = {p.back(), p[p.size() / 2], p.back()};
    }
    Block b;
    b.rows = sarr(r);
    b.cols = sarr(c);
    b.val = A2::from_shape({r.size(), c.size()});
    Lcg g(91 + static_cast<uint64_t>(kind));
    for (size_t i = 0; i < r.size(); ++i) {
        for (size_t j = 0; j < c.size(); ++j) {
            double v = g.integer(1, 9);
            if (kind == 3) {
                v = i == j ? 3.0 + v : 0.0;
            }
            if (kind == 4) {
                v = i == j ? 20.0 * static_cast<double>(p.size()) + v : (j < i ? b.val(j, i) : v);
            }
            b.val(i, j) = v;
        }
    }
    return b;
}

inline uint64_t hash_dense(const Dense& A, uint64_t h = 1469598103934665603ull)
{
    for (auto v : A) {
        uint64_t b;
        double q = v + 0.0;
        std::memcpy(&b, &q, 8);
        h ^= b + 0x9e3779b97f4a7c15ull;
        h *= 1099511628211ull;
        h ^= h >> 29;
    }
    return h;
}

inline std::vector<double> probe(size_t n, int kind)
{
    std::vector<double> x(n);
    for (size_t i = 0; i < n; ++i) {
        x[i] = kind == 0 ? static_cast<double>((i * 5 + 3) % 17) - 6.0 : kind == 1 ? static_cast<double>((i * 7 + 2) % 11) + 1.0 : (i % 2 ? -1.0 : 2.0);
        if (zero_bit(kind, i)) {
            x[i] = 0.0;
        }
    }
    return x;
}

// entries of a sparse matrix against a reference function
template <class S, class F>
void check_sparse(Explorer& X, const S& A, size_t rows, size_t cols, const std::string& what, F&& f)
{
    X.check(static_cast<size_t>(A.rows()) == rows && static_cast<size_t>(A.cols()) == cols, what, ": shape ", A.rows(), "x", A.cols());
    for (size_t i = 0; i < rows; ++i) {
        for (size_t j = 0; j < cols; ++j) {
            X.close1(A.coeff(static_cast<int>(i), static_cast<int>(j)), f(i, j), 1e-12, what, i * cols + j);
        }
    }
}

inline std::vector<size_t> subset(const std::vector<size_t>& p, size_t mask)
{
    std::vector<size_t> r;
    for (size_t i = 0; i < p.size(); ++i) {
        if (mask >> i & 1) {
            r.push_back(p[i]);
        }
    }
    return r;
}

// prescribed lists to try for a world: all subsets (plus a permuted order) of few DOFs, some patterns otherwise
template <class F>
void prescribed(const World& w, size_t limit, F&& f)
{
    std::vector<size_t> p = present(w);
    if (p.size() <= limit) {
        for (size_t m = 0; m < (size_t(1) << p.size()); ++m) {
            std::vector<size_t> s = subset(p, m);
            f(s);
            if (s.size() > 1) {
                std::reverse(s.begin(), s.end());
                std::swap(s[0], s[s.size() / 2]);
                f(s);
            }
        }
    }
    else {
        for (size_t k = 0; k < 4; ++k) {
            std::vector<size_t> s;
            for (size_t i = 0; i < p.size(); ++i) {
                if (k == 0 ? false : k == 1 ? i % 3 == 0 : k == 2 ? i < p.size() / 2 : (i * i) % 7 < 2) {
                    s.push_back(p[i]);
                }
            }
            Lcg g(k + 1);
            for (size_t i = s.size(); i > 1; --i) {
                std::swap(s[i - 1], s[g.below(i)]);
            }
            f(s);
        }
    }
}

} // namespace vh
#endif
