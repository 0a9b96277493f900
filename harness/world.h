// "Worlds": enumeration of connectivities and DOF numberings, from all tiny ones to families of real meshes.
#ifndef VERIF_WORLD_H
#define VERIF_WORLD_H

#include "common.h"
#include <Eigen/Eigen>
#include <GooseFEM/GooseFEM.h>

namespace vh {

using A1 = xt::xtensor<double, 1>;
using A2 = xt::xtensor<double, 2>;
using A3 = xt::xtensor<double, 3>;
using A4 = xt::xtensor<double, 4>;
using S1 = xt::xtensor<size_t, 1>;
using S2 = xt::xtensor<size_t, 2>;
using S3 = xt::xtensor<size_t, 3>;
using XA = xt::xarray<double>;

struct World {
    S2 conn;
    S2 dofs;
    std::string name;
    bool real = false; // a real mesh (elements have distinct nodes)
    size_t nelem() const { return conn.shape(0); }
    size_t nne() const { return conn.shape(1); }
    size_t nnode() const { return dofs.shape(0); }
    size_t ndim() const { return dofs.shape(1); }
    size_t ndof() const
    {
        size_t m = 0;
        for (auto d : dofs) {
            m = std::max(m, static_cast<size_t>(d));
        }
        return m + 1;
    }
    std::string str() const
    {
        if (!name.empty()) {
            return name;
        }
        return "conn" + std::to_string(nelem()) + "x" + std::to_string(nne()) + vh::str(conn) + " dofs" +
               std::to_string(nnode()) + "x" + std::to_string(ndim()) + vh::str(dofs);
    }
};

inline S2 make2(size_t a, size_t b, const std::vector<size_t>& v)
{
    S2 r = S2::from_shape({a, b});
    for (size_t i = 0; i < a * b; ++i) {
        r.data()[i] = v[i];
    }
    return r;
}

// numbering obtained from partition "p" whose classes are relabelled by permutation "perm"
inline std::vector<std::vector<size_t>> permutations(size_t n)
{
    std::vector<size_t> p(n);
    for (size_t i = 0; i < n; ++i) {
        p[i] = i;
    }
    std::vector<std::vector<size_t>> r;
    do {
        r.push_back(p);
    } while (std::next_permutation(p.begin(), p.end()));
    return r;
}

// DOF numberings of a real mesh
template <class F>
void numberings(size_t nnode, size_t ndim, F&& f)
{
    size_t n = nnode * ndim;
    S2 d = S2::from_shape({nnode, ndim});
    for (size_t i = 0; i < n; ++i) {
        d.data()[i] = i;
    }
    f(d, std::string("default"));
    for (size_t i = 0; i < n; ++i) {
        d.data()[i] = n - 1 - i;
    }
    f(d, std::string("reversed"));
    {
        Lcg g(n);
        std::vector<size_t> p(n);
        for (size_t i = 0; i < n; ++i) {
            p[i] = i;
        }
        for (size_t i = n; i > 1; --i) {
            std::swap(p[i - 1], p[g.below(i)]);
        }
        for (size_t i = 0; i < n; ++i) {
            d.data()[i] = p[i];
        }
        f(d, std::string("shuffled"));
        size_t m = std::max<size_t>(1, n / 2);
        for (size_t i = 0; i < n; ++i) {
            d.data()[i] = p[i] % m;
        }
        f(d, std::string("shared-shuffled"));
    }
    for (size_t i = 0; i < n; ++i) {
        d.data()[i] = i % std::max<size_t>(1, n - 1);
    }
    f(d, std::string("first-last-shared"));
    for (size_t i = 0; i < n; ++i) {
        d.data()[i] = (i / ndim) % std::max<size_t>(1, nnode - 1);
    }
    f(d, std::string("components-shared"));
}

template <class M>
S2 to2(const M& m)
{
    return S2(m);
}

// Real meshes: f(coor, conn, name)
template <class F>
void real_meshes(bool thorough, F&& f)
{
    namespace G = GooseFEM::Mesh;
    size_t nq = thorough ? 5 : 3;
    for (size_t x = 1; x <= nq; ++x) {
        for (size_t y = 1; y <= nq; ++y) {
            G::Quad4::Regular m(x, y);
            f(A2(m.coor()), S2(m.conn()), "Quad4(" + std::to_string(x) + "," + std::to_string(y) + ")");
            G::Tri3::Regular t(x, y);
            f(A2(t.coor()), S2(t.conn()), "Tri3(" + std::to_string(x) + "," + std::to_string(y) + ")");
        }
    }
    size_t nh = thorough ? 3 : 2;
    for (size_t x = 1; x <= nh; ++x) {
        for (size_t y = 1; y <= nh; ++y) {
            for (size_t z = 1; z <= nh; ++z) {
                G::Hex8::Regular m(x, y, z);
                f(A2(m.coor()), S2(m.conn()),
                  "Hex8(" + std::to_string(x) + "," + std::to_string(y) + "," + std::to_string(z) + ")");
            }
        }
    }
    {
        G::Quad4::FineLayer m(9, 17);
        f(A2(m.coor()), S2(m.conn()), "Quad4FineLayer(9,17)");
        G::Quad4::Regular l(23, 17);
        f(A2(l.coor()), S2(l.conn()), "Quad4(23,17)");
        G::Hex8::Regular h(5, 4, 6);
        f(A2(h.coor()), S2(h.conn()), "Hex8(5,4,6)");
    }
}

// small=true: only what is affordable with expensive per-world work
template <class F>
void worlds(bool thorough, F&& f, int size = 1)
{
    // all connectivities x all DOF numberings (with sharing, gaps and permutations) of tiny shapes
    struct Shape { size_t nnode, ndim, nelem, nne; };
    std::vector<Shape> shapes = {{1, 1, 1, 1}, {2, 1, 1, 2}, {1, 2, 1, 1}, {2, 1, 2, 1}, {3, 1, 1, 3}, {2, 2, 1, 1}, {2, 2, 1, 2}, {3, 1, 2, 1}, {3, 1, 1, 2}};
    if (size >= 1) {
        shapes.push_back({2, 2, 2, 1});
        shapes.push_back({2, 2, 2, 2});
        shapes.push_back({3, 1, 2, 2});
    }
    if (thorough && size >= 1) {
        shapes.push_back({2, 2, 3, 1});
        shapes.push_back({4, 1, 2, 2});
        shapes.push_back({4, 1, 1, 4});
        shapes.push_back({3, 1, 3, 2});
        shapes.push_back({2, 2, 1, 3});
    }
    if (thorough && size >= 2) {
        shapes.push_back({3, 2, 1, 2});
        shapes.push_back({4, 1, 3, 2});
        shapes.push_back({5, 1, 1, 3});
        shapes.push_back({2, 3, 1, 2});
    }
    for (auto& s : shapes) {
        tuples(s.nelem * s.nne, s.nnode, [&](const std::vector<size_t>& c) {
            tuples(s.nnode * s.ndim, s.nnode * s.ndim, [&](const std::vector<size_t>& d) {
                World w;
                w.conn = make2(s.nelem, s.nne, c);
                w.dofs = make2(s.nnode, s.ndim, d);
                f(w);
            });
        });
    }
    // sharing patterns (set partitions) of three-dimensional and three-node worlds
    {
        std::vector<Shape> sp = {{2, 3, 1, 2}, {3, 2, 2, 2}};
        if (thorough) {
            sp.push_back({2, 3, 2, 2});
            sp.push_back({3, 2, 1, 3});
        }
        if (size < 1) {
            sp.resize(1);
        }
        for (auto& s : sp) {
            std::vector<std::vector<size_t>> conns;
            if (thorough) {
                tuples(s.nelem * s.nne, s.nnode, [&](const std::vector<size_t>& c) { conns.push_back(c); });
            }
            else {
                std::vector<size_t> c(s.nelem * s.nne);
                for (size_t i = 0; i < c.size(); ++i) {
                    c[i] = (i + i / s.nne) % s.nnode;
                }
                conns.push_back(c);
                std::reverse(c.begin(), c.end());
                conns.push_back(c);
            }
            for (auto& c : conns) {
                partitions(s.nnode * s.ndim, [&](const std::vector<size_t>& d) {
                    World w;
                    w.conn = make2(s.nelem, s.nne, c);
                    w.dofs = make2(s.nnode, s.ndim, d);
                    f(w);
                });
            }
        }
    }
    real_meshes(thorough && size >= 1, [&](const A2& coor, const S2& conn, const std::string& name) {
        numberings(coor.shape(0), coor.shape(1), [&](const S2& d, const std::string& n) {
            World w;
            w.conn = conn;
            w.dofs = d;
            w.name = name + " dofs=" + n;
            w.real = true;
            f(w);
        });
    });
}

// entries of the probes that are zero: byte "k" holds those of kind "k" (of the first eight entries)
inline uint64_t& zero_mask()
{
    static uint64_t m = 0;
    return m;
}

inline bool zero_bit(int kind, size_t i)
{
    return i < 8 && (zero_mask() >> (static_cast<size_t>(kind) * 8 + i) & 1);
}

// A value per DOF that identifies the DOF.
inline double dofvalue(size_t d)
{
    return zero_bit(0, d) ? 0.0 : static_cast<double>((d * 7919 + 13) % 100003) + 0.5;
}

// The k-th contribution: distinct powers of two while they fit (then any sum identifies the set of summands).
struct Contribution {
    size_t n;
    Lcg g;
    size_t k = 0;
    explicit Contribution(size_t n_) : n(n_), g(n_ + 7) {}
    double operator()()
    {
        size_t i = k++;
        if (n <= 48) {
            return std::ldexp(1.0, static_cast<int>(i));
        }
        return g.integer(-1000000, 1000000);
    }
};

// f() for all patterns of zeros in the probes of these kinds
template <class F>
void zero_patterns(size_t n, const std::vector<int>& kinds, F&& f)
{
    size_t bits = std::min<size_t>(n, 8);
    size_t total = size_t(1) << (bits * kinds.size());
    for (size_t c = 0; c < total; ++c) {
        uint64_t m = 0;
        for (size_t k = 0; k < kinds.size(); ++k) {
            m |= (c >> (bits * k) & ((size_t(1) << bits) - 1)) << (static_cast<size_t>(kinds[k]) * 8);
        }
        zero_mask() = m;
        f();
    }
    zero_mask() = 0;
}

// The same array in other forms of storage: column-major, every other entry of a larger array, an expression,
// without a fixed rank; numbers also as signed integers.
template <class V, size_t N, class F>
void forms(const xt::xtensor<V, N>& a, F&& f)
{
    xt::xtensor<V, N, xt::layout_type::column_major> c = a;
    f(c, "column-major");
    std::array<size_t, N> shape;
    xt::xstrided_slice_vector sl;
    for (size_t i = 0; i < N; ++i) {
        shape[i] = 2 * a.shape(i) + 1;
        sl.push_back(xt::range(1, 2 * static_cast<std::ptrdiff_t>(a.shape(i)) + 1, 2));
    }
    using L = std::numeric_limits<V>;
    xt::xtensor<V, N> big(shape, L::has_quiet_NaN ? L::quiet_NaN() : V(1048576));
    auto v = xt::strided_view(big, sl);
    v = a;
    f(v, "strided view");
    auto e = V(1) * a;
    f(e, "expression");
    xt::xarray<V> x = a;
    f(x, "xarray");
    if constexpr (std::is_integral<V>::value) {
        xt::xtensor<int, N> i = xt::cast<int>(a);
        f(i, "int");
    }
}

// An output in other forms of storage: f(output), to become "expect"; initially filled with "garbage".
template <size_t N, class X, class F>
void forms_out(X& x, const xt::xtensor<double, N>& expect, double garbage, const char* what, F&& f)
{
    xt::xtensor<double, N, xt::layout_type::column_major> c = expect;
    c.fill(garbage);
    f(c);
    x.equal(c, expect, std::string(what) + " written to a column-major array");
    std::array<size_t, N> shape;
    xt::xstrided_slice_vector sl;
    for (size_t i = 0; i < N; ++i) {
        shape[i] = 2 * expect.shape(i) + 1;
        sl.push_back(xt::range(1, 2 * static_cast<std::ptrdiff_t>(expect.shape(i)) + 1, 2));
    }
    xt::xtensor<double, N> big(shape, garbage);
    auto v = xt::strided_view(big, sl);
    f(v);
    x.equal(v, expect, std::string(what) + " written to a strided view");
    size_t n = 0;
    for (auto& q : big) {
        n += q != garbage;
    }
    for (auto& q : expect) {
        n -= q != garbage;
    }
    x.check(n == 0, what, " written to a strided view: entries next to the view changed");
}

// worlds with few DOFs, all in use
inline std::vector<World> few_dofs()
{
    std::vector<World> r;
    World w;
    w.conn = make2(2, 2, {0, 1, 1, 2});
    w.dofs = make2(3, 1, {2, 0, 1});
    r.push_back(w);
    w.conn = make2(1, 2, {1, 0});
    w.dofs = make2(2, 2, {3, 0, 1, 2});
    r.push_back(w);
    w.conn = make2(2, 2, {0, 2, 1, 3});
    w.dofs = make2(4, 1, {1, 0, 1, 2});
    r.push_back(w);
    return r;
}

} // namespace vh

#endif
