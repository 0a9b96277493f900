// G12: Renumber and Reorder; G13: incidence; G14: geometric helpers; G15: orientation of triangles
#include "world.h"

using namespace vh;
namespace M = GooseFEM::Mesh;

template <class T>
static T shaped(const std::vector<size_t>& shape, const std::vector<size_t>& v)
{
    typename T::shape_type s;
    if constexpr (!std::is_same<T, xt::xarray<size_t>>::value) {
        std::copy(shape.begin(), shape.end(), s.begin());
    }
    else {
        s.assign(shape.begin(), shape.end());
    }
    T r = T::from_shape(s);
    std::copy(v.begin(), v.end(), r.begin());
    return r;
}

static S1 arr(const std::vector<size_t>& v)
{
    S1 r = S1::from_shape({v.size()});
    std::copy(v.begin(), v.end(), r.begin());
    return r;
}

#ifdef G12
using XS = xt::xarray<size_t>;

// Renumber "v" stored with different ranks.
static void renumber(Explorer& X, const std::vector<size_t>& v)
{
    std::set<size_t> u(v.begin(), v.end());
    std::map<size_t, size_t> exp;
    for (auto i : u) {
        size_t n = exp.size();
        exp[i] = n;
    }
    auto apply = [&](auto tag, const std::vector<size_t>& shape) {
        using T = decltype(tag);
        T a = shaped<T>(shape, v);
        T e = a;
        for (auto& i : e) {
            i = exp[i];
        }
        T r0 = M::renumber(a);
        X.equal(r0, e, "renumber()");
        M::Renumber c(a);
        M::Renumber r = c;
        X.equal(T(r.apply(a)), e, "Renumber::apply()");
        // applied to other data of any rank and size
        std::vector<size_t> o(u.rbegin(), u.rend());
        o.insert(o.end(), v.begin(), v.end());
        S1 p1 = r.apply(arr(o));
        S2 p2 = r.apply(shaped<S2>({1, o.size()}, o));
        S3 p3 = r.apply(shaped<S3>({o.size(), 1, 1}, o));
        XS p4 = r.apply(shaped<XS>({1, o.size(), 1, 1}, o));
        X.same_shape(p1.shape(), std::array<size_t, 1>{o.size()}, "apply()");
        X.same_shape(p2.shape(), std::array<size_t, 2>{1, o.size()}, "apply()");
        X.same_shape(p3.shape(), std::array<size_t, 3>{o.size(), 1, 1}, "apply()");
        X.same_shape(p4.shape(), std::array<size_t, 4>{1, o.size(), 1, 1}, "apply()");
        S1 index = r.index();
        X.check(index.size() == *u.rbegin() + 1, "size of index() is ", index.size());
        for (size_t i = 0; i < o.size(); ++i) {
            X.check(p1.data()[i] == exp[o[i]] && p2.data()[i] == exp[o[i]] && p3.data()[i] == exp[o[i]] && p4.data()[i] == exp[o[i]], "apply() of ", o[i], " is ", p1.data()[i], " expected ", exp[o[i]]);
            X.check(index(o[i]) == exp[o[i]], "index() of ", o[i], " is ", index(o[i]), " expected ", exp[o[i]]);
        }
        // renumbering twice changes nothing
        X.equal(T(M::renumber(r0)), e, "renumber(renumber())");
        X.observe_all(e);
    };
    size_t n = v.size();
    apply(S1(), {n});
    apply(S2(), {n, 1});
    apply(XS(), {n});
    if (n % 2 == 0) {
        apply(xt::xtensor<size_t, 2, xt::layout_type::column_major>(), {n / 2, 2});
        apply(S2(), {n / 2, 2});
        apply(S2(), {2, n / 2});
        apply(S3(), {2, 1, n / 2});
    }
    if (n % 3 == 0) {
        apply(S2(), {n / 3, 3});
        apply(XS(), {1, 3, n / 3});
    }
}

static void reorder(Explorer& X, const std::vector<std::vector<size_t>>& lists)
{
    std::map<size_t, size_t> exp;
    size_t top = 0;
    std::vector<size_t> all;
    for (auto& l : lists) {
        for (auto i : l) {
            size_t n = exp.size();
            exp[i] = n;
            top = std::max(top, i + 1);
            all.push_back(i);
        }
    }
    auto verify = [&](const M::Reorder& c) {
        M::Reorder r = c;
        S1 index = r.index();
        X.check(index.size() == top, "size of index() is ", index.size(), " expected ", top);
        for (auto i : all) {
            X.check(index(i) == exp[i], "index() of ", i, " is ", index(i), " expected ", exp[i]);
        }
        for (auto& l : lists) {
            S1 a = r.apply(arr(l));
            X.check(a.size() == l.size(), "size of apply()");
            for (size_t i = 0; i < l.size(); ++i) {
                X.check(a(i) == exp[l[i]], "apply() of ", l[i], " is ", a(i), " expected ", exp[l[i]]);
                X.observe(a(i));
            }
        }
        std::vector<size_t> o(all.rbegin(), all.rend());
        o.insert(o.end(), all.begin(), all.end());
        S2 a = r.apply(shaped<S2>({2, all.size()}, o));
        S3 b = r.apply(shaped<S3>({all.size(), 1, 2}, o));
        XS d = r.apply(shaped<XS>({all.size() * 2}, o));
        X.same_shape(a.shape(), std::array<size_t, 2>{2, all.size()}, "apply()");
        X.same_shape(b.shape(), std::array<size_t, 3>{all.size(), 1, 2}, "apply()");
        for (size_t i = 0; i < o.size(); ++i) {
            X.check(a.data()[i] == exp[o[i]] && b.data()[i] == exp[o[i]] && d.data()[i] == exp[o[i]], "apply() of ", o[i]);
        }
    };
    std::vector<S1> l;
    for (auto& i : lists) {
        l.push_back(arr(i));
    }
    if (l.size() == 1) {
        verify(M::Reorder({l[0]}));
    }
    else if (l.size() == 2) {
        verify(M::Reorder({l[0], l[1]}));
    }
    else if (l.size() == 3) {
        verify(M::Reorder({l[0], l[1], l[2]}));
    }
    else {
        verify(M::Reorder({l[0], l[1], l[2], l[3]}));
    }
}

static int run(Explorer& X)
{
    size_t nmax = X.deep ? 8 : X.thorough ? 7 : 6;
    for (size_t n = 1; n <= nmax; ++n) {
        size_t b = n <= 4 ? (X.deep ? 12 : 8) : X.thorough && n <= 7 ? 7 : 5;
        tuples(n, b, [&](const std::vector<size_t>& t) {
            X.run([&]() { return "renumber " + str(t); }, [&]() { renumber(X, t); }, n > 1);
        });
    }
    // large gaps
    tuples(4, 4, [&](const std::vector<size_t>& t) {
        std::vector<size_t> v, values = {0, 3, 1000, 65537};
        for (auto i : t) {
            v.push_back(values[i]);
        }
        X.run([&]() { return "renumber " + str(v); }, [&]() { renumber(X, v); });
    });
    // every split of every order of up to 6 of 7 numbers in one to four lists (also empty ones)
    size_t m = X.deep ? 8 : X.thorough ? 7 : 6;
    for (size_t bits = 1; bits < (size_t(1) << m); ++bits) {
        std::vector<size_t> pick;
        for (size_t i = 0; i < m; ++i) {
            if (bits & (size_t(1) << i)) {
                pick.push_back(i);
            }
        }
        if (pick.size() > (X.deep ? 7u : X.thorough ? 6u : 5u)) {
            continue;
        }
        do {
            size_t n = pick.size();
            for (size_t a = 0; a <= n; ++a) {
                for (size_t c = a; c <= n; ++c) {
                    for (size_t k = 0; k < (a == n && c == n ? 4u : 2u); ++k) {
                        X.run([&]() { return "reorder " + str(pick) + " cut at " + std::to_string(a) + "," + std::to_string(c) + " variant " + std::to_string(k); }, [&]() {
                            std::vector<size_t> x(pick.begin(), pick.begin() + a), y(pick.begin() + a, pick.begin() + c), z(pick.begin() + c, pick.end());
                            if (k == 0) {
                                reorder(X, {x, y, z});
                            }
                            else if (k == 1) {
                                reorder(X, {x, {}, y, z});
                            }
                            else if (k == 2) {
                                reorder(X, {x});
                            }
                            else {
                                reorder(X, {y, x});
                            }
                        }, n > 1);
                    }
                }
            }
        } while (std::next_permutation(pick.begin(), pick.end()));
    }
    // real numberings
    real_meshes(X.thorough, [&](const A2& coor, const S2&, const std::string& name) {
        numberings(coor.shape(0), coor.shape(1), [&](const S2& d, const std::string& nm) {
            for (size_t k : {1, 3}) {
                X.run([&]() { return name + " " + nm + " times " + std::to_string(k); }, [&]() {
                    std::vector<size_t> v;
                    for (auto i : d) {
                        v.push_back(i * k + k);
                    }
                    renumber(X, v);
                    std::set<size_t> u(v.begin(), v.end());
                    std::vector<size_t> p, q;
                    for (auto i : u) {
                        (i % 2 ? p : q).push_back(i);
                    }
                    std::reverse(p.begin(), p.end());
                    reorder(X, {p, q});
                });
            }
        });
    });
    return X.finish("all arrays of up to " + std::to_string(nmax) + " numbers below 8 (n <= 4) or " + std::to_string(X.thorough ? 7 : 5) + (X.deep ? " (5 for 8 numbers)" : "") + ", stored with 8 types and shapes; every split in up to four lists of every order of every subset of " + std::to_string(m) +
                    " numbers; numberings of real meshes with and without gaps");
}
#endif

#ifdef G13
static std::vector<std::vector<size_t>> incidences(const S2& a, size_t n)
{
    std::vector<std::vector<size_t>> r(n);
    for (size_t e = 0; e < a.shape(0); ++e) {
        std::set<size_t> u;
        for (size_t m = 0; m < a.shape(1); ++m) {
            if (u.insert(a(e, m)).second) {
                r[a(e, m)].push_back(e);
            }
        }
    }
    return r;
}

static bool same(std::vector<std::vector<size_t>> a, const std::vector<std::vector<size_t>>& b, bool sorted)
{
    if (!sorted) {
        for (auto& i : a) {
            std::sort(i.begin(), i.end());
        }
    }
    return a == b;
}

static std::string show(const std::vector<std::vector<size_t>>& a)
{
    std::string r;
    for (auto& i : a) {
        r += str(i);
    }
    return r;
}

static size_t top(const S2& a)
{
    size_t n = 0;
    for (auto i : a) {
        n = std::max<size_t>(n, i + 1);
    }
    return n;
}

static void incidence(Explorer& X, const S2& conn)
{
    size_t n = top(conn);
    auto exp = incidences(conn, n);
    auto c = M::coordination(conn);
    X.check(c.size() == n, "size of coordination()");
    for (size_t i = 0; i < n; ++i) {
        X.check(c(i) == exp[i].size(), "coordination() of node ", i, " is ", c(i), " expected ", exp[i].size());
        X.observe(c(i));
    }
    for (bool sorted : {true, false}) {
        auto a = M::elem2node(conn, sorted);
        X.check(same(a, exp, sorted), "elem2node() is ", show(a), " expected ", show(exp));
    }
    auto d = M::elem2node(conn);
    X.check(d == exp, "elem2node() is ", show(d), " expected ", show(exp));
}

// "cls": class of every node; nodes of the same class share all DOFs
static void stored(Explorer& X, const S2& conn, const S2& dofs)
{
    auto N = M::coordination(conn);
    auto E = M::elem2node(conn);
    forms(conn, [&](const auto& c, const char* form) {
        X.equal(M::coordination(c), N, std::string("coordination(), ") + form);
        X.check(same(M::elem2node(c), E, true), "elem2node(), ", form);
        X.check(same(M::elem2node(c, false), E, false), "elem2node(), unsorted, ", form);
    });
    auto D = M::elem2node(conn, dofs);
    auto P = M::node2dof(dofs);
    auto T = M::nodaltyings(dofs);
    forms(dofs, [&](const auto& d, const char* form) {
        X.check(same(M::elem2node(conn, d), D, true), "elem2node(dofs), ", form);
        X.check(same(M::node2dof(d), P, true), "node2dof(), ", form);
        X.check(same(M::nodaltyings(d), T, true), "nodaltyings(), ", form);
    });
}

static S2 tied(const std::vector<size_t>& cls, size_t ndim, size_t mode)
{
    size_t k = 0;
    for (auto i : cls) {
        k = std::max(k, i + 1);
    }
    S2 d = S2::from_shape({cls.size(), ndim});
    for (size_t m = 0; m < cls.size(); ++m) {
        for (size_t i = 0; i < ndim; ++i) {
            if (mode == 0) {
                d(m, i) = cls[m] * ndim + i;
            }
            else if (mode == 1) {
                d(m, i) = (k * ndim - 1) - (cls[m] * ndim + i);
            }
            else {
                d(m, i) = 2 * (cls[m] + i * k) + 1; // component-major, with gaps
            }
        }
    }
    return d;
}

static void ties(Explorer& X, const S2& conn, const std::vector<size_t>& cls, size_t ndim, size_t mode)
{
    S2 dofs = tied(cls, ndim, mode);
    size_t n = cls.size();
    auto nd = incidences(dofs, top(dofs));
    for (bool sorted : {true, false}) {
        auto a = M::node2dof(dofs, sorted);
        X.check(same(a, nd, sorted), "node2dof() is ", show(a), " expected ", show(nd));
    }
    auto nt = M::nodaltyings(dofs);
    std::vector<std::vector<size_t>> exp(n), el(n);
    std::vector<std::set<size_t>> sets(n);
    for (size_t i = 0; i < n; ++i) {
        for (size_t j = 0; j < n; ++j) {
            if (cls[i] == cls[j]) {
                exp[i].push_back(j);
            }
        }
    }
    X.check(nt == exp, "nodaltyings() is ", show(nt), " expected ", show(exp));
    for (size_t e = 0; e < conn.shape(0); ++e) {
        for (size_t m = 0; m < conn.shape(1); ++m) {
            for (auto j : exp[conn(e, m)]) {
                sets[j].insert(e);
            }
        }
    }
    for (size_t i = 0; i < n; ++i) {
        el[i].assign(sets[i].begin(), sets[i].end());
    }
    for (bool sorted : {true, false}) {
        auto a = M::elem2node(conn, dofs, sorted);
        X.check(same(a, el, sorted), "elem2node(dofs) is ", show(a), " expected ", show(el));
    }
    for (auto& r : el) {
        X.observe_all(r);
    }
    if (mode == 0 && ndim == 2) {
        stored(X, conn, dofs);
    }
}

static int run(Explorer& X)
{
    struct Shape { size_t nnode, nelem, nne; };
    std::vector<Shape> shapes = {{3, 1, 1}, {3, 2, 1}, {3, 1, 2}, {3, 2, 2}, {4, 1, 3}, {4, 2, 2}, {4, 3, 1}, {3, 3, 2}, {4, 1, 4}, {5, 1, 2}, {4, 2, 3}, {4, 3, 2}};
    if (X.thorough) {
        shapes.push_back({5, 2, 2});
        shapes.push_back({5, 2, 3});
        shapes.push_back({4, 4, 2});
        shapes.push_back({4, 3, 3});
        shapes.push_back({5, 1, 4});
    }
    if (X.deep) {
        shapes.push_back({5, 3, 2});
        shapes.push_back({4, 5, 2});
        shapes.push_back({5, 2, 4});
    }
    for (auto& s : shapes) {
        tuples(s.nelem * s.nne, s.nnode, [&](const std::vector<size_t>& c) {
            S2 conn = make2(s.nelem, s.nne, c);
            // elements have distinct nodes
            for (size_t e = 0; e < s.nelem; ++e) {
                std::set<size_t> u(c.begin() + e * s.nne, c.begin() + (e + 1) * s.nne);
                if (u.size() != s.nne) {
                    return;
                }
            }
            X.run([&]() { return "conn " + std::to_string(s.nelem) + "x" + std::to_string(s.nne) + str(c); }, [&]() { incidence(X, conn); });
            for (size_t n = top(conn); n <= s.nnode + 1; ++n) {
                partitions(n, [&](const std::vector<size_t>& cls) {
                    X.run([&]() { return "conn " + std::to_string(s.nelem) + "x" + std::to_string(s.nne) + str(c) + " classes of nodes " + str(cls); }, [&]() {
                        for (size_t ndim = 1; ndim <= 3; ++ndim) {
                            for (size_t mode = 0; mode < 3; ++mode) {
                                ties(X, conn, cls, ndim, mode);
                            }
                        }
                    });
                });
            }
        });
    }
    auto real = [&](const A2& coor, const S2& conn, const std::string& name, const S2* periodic) {
        X.run([&]() { return name; }, [&]() {
            incidence(X, conn);
            size_t n = coor.shape(0);
            std::vector<size_t> cls(n);
            for (size_t k = 0; k < 3; ++k) {
                for (size_t i = 0; i < n; ++i) {
                    cls[i] = k == 0 ? i : k == 1 ? i % std::max<size_t>(1, n / 2) : 0;
                }
                for (size_t mode = 0; mode < 3; ++mode) {
                    ties(X, conn, cls, coor.shape(1), mode);
                }
            }
            if (periodic) {
                for (size_t i = 0; i < n; ++i) {
                    cls[i] = i;
                }
                for (size_t i = 0; i < periodic->shape(0); ++i) {
                    cls[(*periodic)(i, 1)] = (*periodic)(i, 0);
                }
                for (size_t mode = 0; mode < 3; ++mode) {
                    ties(X, conn, cls, coor.shape(1), mode);
                }
            }
        });
    };
    real_meshes(X.thorough, [&](const A2& coor, const S2& conn, const std::string& name) { real(coor, conn, name, nullptr); });
    for (size_t x = 1; x <= 4; ++x) {
        for (size_t y = 1; y <= 4; ++y) {
            M::Quad4::Regular q(x, y);
            S2 p = q.nodesPeriodic();
            real(q.coor(), q.conn(), "periodic Quad4(" + std::to_string(x) + "," + std::to_string(y) + ")", &p);
            M::Tri3::Regular t(x, y);
            p = t.nodesPeriodic();
            real(t.coor(), t.conn(), "periodic Tri3(" + std::to_string(x) + "," + std::to_string(y) + ")", &p);
            for (size_t z = 1; z <= 2; ++z) {
                M::Hex8::Regular h(x, y, z);
                p = h.nodesPeriodic();
                real(h.coor(), h.conn(), "periodic Hex8(" + std::to_string(x) + "," + std::to_string(y) + "," + std::to_string(z) + ")", &p);
            }
        }
    }
    {
        M::Quad4::FineLayer f(27, 60);
        S2 p = f.nodesPeriodic();
        real(f.coor(), f.conn(), "periodic Quad4FineLayer(27,60)", &p);
        M::Quad4::Regular q(19, 23);
        p = q.nodesPeriodic();
        real(q.coor(), q.conn(), "periodic Quad4(19,23)", &p);
        M::Tri3::Regular t(17, 9);
        p = t.nodesPeriodic();
        real(t.coor(), t.conn(), "periodic Tri3(17,9)", &p);
        M::Hex8::Regular h(5, 6, 7);
        p = h.nodesPeriodic();
        real(h.coor(), h.conn(), "periodic Hex8(5,6,7)", &p);
    }
    return X.finish("all connectivities (distinct nodes per element) of " + std::to_string(shapes.size()) + " shapes of up to 5 nodes, all ways to tie up to 6 nodes, 1 to 3 components in three numberings; real and periodic meshes");
}
#endif

#ifdef G14
static void geometry(Explorer& X, const A2& coor, const S2& conn)
{
    auto q = M::ElementType::Quad4;
    size_t ne = conn.shape(0), nn = coor.shape(0);
    X.check(M::defaultElementType(coor, conn) == q, "defaultElementType()");
    A2 edge = xt::zeros<double>({ne, size_t(4)}), cen = xt::zeros<double>({ne, size_t(2)}), mass = xt::zeros<double>({nn, size_t(2)});
    double area = 0.0;
    A1 cog = xt::zeros<double>({2});
    for (size_t e = 0; e < ne; ++e) {
        for (size_t a = 0; a < 4; ++a) {
            size_t i = conn(e, a), j = conn(e, (a + 1) % 4), k = conn(e, (a + 3) % 4);
            double ux = coor(j, 0) - coor(i, 0), uy = coor(j, 1) - coor(i, 1);
            double vx = coor(k, 0) - coor(i, 0), vy = coor(k, 1) - coor(i, 1);
            edge(e, a) = std::hypot(ux, uy);
            double w = 0.25 * (ux * vy - uy * vx); // corner of the bilinear map
            for (size_t d = 0; d < 2; ++d) {
                cen(e, d) += 0.25 * coor(i, d);
                mass(i, d) += w;
                cog(d) += w * coor(i, d);
            }
            area += w;
        }
    }
    cog /= area;
    for (int k = 0; k < 2; ++k) {
        X.close(k ? M::edgesize(coor, conn, q) : M::edgesize(coor, conn), edge, 1e-12, "edgesize()");
        X.close(k ? M::centers(coor, conn, q) : M::centers(coor, conn), cen, 1e-12, "centers()");
        X.close(k ? M::nodal_mass(coor, conn, q) : M::nodal_mass(coor, conn), mass, 1e-12, "nodal_mass()");
        X.close(k ? M::center_of_gravity(coor, conn, q) : M::center_of_gravity(coor, conn), cog, 1e-11, "center_of_gravity()");
    }
    // other forms of storage
    auto compare = [&](const auto& x, const auto& c, const char* form) {
        X.close(M::edgesize(x, c, q), edge, 1e-12, std::string("edgesize(), ") + form);
        X.close(M::centers(x, c, q), cen, 1e-12, std::string("centers(), ") + form);
        X.close(M::nodal_mass(x, c, q), mass, 1e-12, std::string("nodal_mass(), ") + form);
        X.check(M::defaultElementType(x, c) == q, "defaultElementType(), ", form);
    };
    forms(coor, [&](const auto& x, const char* form) { compare(x, conn, form); });
    forms(conn, [&](const auto& c, const char* form) { compare(coor, c, form); });
    // in microscopic and astronomic units
    for (int k : {-40, 40}) {
        double h = std::ldexp(1.0, k);
        A2 x = coor * h;
        X.close(A2(M::edgesize(x, conn) / h), edge, 1e-12, "edgesize() in units of 2^" + std::to_string(k));
        X.close(A2(M::centers(x, conn) / h), cen, 1e-12, "centers() in units of 2^" + std::to_string(k));
        A2 m2 = M::nodal_mass(x, conn);
        m2 /= h * h;
        X.close(m2, A2(M::nodal_mass(coor, conn)), 1e-12, "nodal_mass() in units of 2^" + std::to_string(k));
        X.close(A1(M::center_of_gravity(x, conn) / h), cog, 1e-11, "center_of_gravity() in units of 2^" + std::to_string(k));
    }
}

static void nodemap(Explorer& X, const A2& coor, const S2& conn, const S1& em)
{
    std::vector<std::set<size_t>> allowed(coor.shape(0));
    for (size_t e = 0; e < conn.shape(0); ++e) {
        for (size_t a = 0; a < 4; ++a) {
            allowed[conn(e, a)].insert(conn(em(e), a));
        }
    }
    S1 r = M::elemmap2nodemap(em, coor, conn);
    S1 q = M::elemmap2nodemap(em, coor, conn, M::ElementType::Quad4);
    X.equal(r, q, "elemmap2nodemap() with and without element type");
    X.check(r.size() == coor.shape(0), "size of elemmap2nodemap()");
    for (size_t i = 0; i < r.size(); ++i) {
        if (!allowed[i].empty()) {
            X.check(allowed[i].count(r(i)), "elemmap2nodemap() of node ", i, " is ", r(i), " expected one of ", str(allowed[i]));
        }
    }
}

static void rolled(Explorer& X, const A2& coor, const S2& conn, const S1& em, double dx, double L);

static void regular(Explorer& X, size_t x, size_t y)
{
    X.run([&]() { return "Regular(" + std::to_string(x) + "," + std::to_string(y) + ")"; }, [&]() {
        M::Quad4::Regular m(x, y, 0.5);
        A2 coor = m.coor();
        S2 conn = m.conn();
        geometry(X, coor, conn);
        for (size_t s = 0; s <= x; ++s) {
            // the element takes the value of the element "s" further to the left
            S1 em = S1::from_shape({x * y});
            for (size_t e = 0; e < x * y; ++e) {
                em(e) = (e / x) * x + (e % x + x * 2 - s) % x;
            }
            rolled(X, coor, conn, em, 0.5 * static_cast<double>(s), 0.5 * static_cast<double>(x));
        }
        Lcg l(x + 10 * y);
        for (size_t i = 0; i < coor.shape(0); ++i) {
            coor(i, 0) += 0.02 * l.integer(-4, 4);
            coor(i, 1) += 0.02 * l.integer(-4, 4);
        }
        geometry(X, coor, conn);
    });
}

// Position of the mapped nodes: shifted by "dx" along x, periodic.
static void rolled(Explorer& X, const A2& coor, const S2& conn, const S1& em, double dx, double L)
{
    nodemap(X, coor, conn, em);
    S1 r = M::elemmap2nodemap(em, coor, conn);
    for (size_t i = 0; i < r.size(); ++i) {
        double x = (coor(r(i), 0) + dx - coor(i, 0)) / L;
        X.check(std::abs(x - std::round(x)) < 1e-9 && std::abs(coor(r(i), 1) - coor(i, 1)) < 1e-9, "node ", i, " takes the value of node ", r(i));
    }
}

static int run(Explorer& X)
{
    // all convex quadrilaterals on a grid
    long g = X.deep ? 6 : X.thorough ? 5 : 4;
    std::vector<std::array<long, 2>> pts;
    for (long i = 0; i < g; ++i) {
        for (long j = 0; j < g; ++j) {
            pts.push_back({i, j});
        }
    }
    tuples(4, pts.size(), [&](const std::vector<size_t>& t) {
        for (size_t a = 0; a < 4; ++a) {
            auto &p = pts[t[a]], &q = pts[t[(a + 1) % 4]], &r = pts[t[(a + 2) % 4]];
            if ((q[0] - p[0]) * (r[1] - q[1]) - (q[1] - p[1]) * (r[0] - q[0]) <= 0) {
                return;
            }
        }
        X.run([&]() { return "quadrilateral " + str(t); }, [&]() {
            // alone; in permuted node order; with a node that is not used; next to a second element
            for (size_t k = 0; k < 4; ++k) {
                size_t extra = k == 2 ? 1 : k == 3 ? 4 : 0;
                A2 coor = A2::from_shape({4 + extra, size_t(2)});
                S2 conn = S2::from_shape({k == 3 ? size_t(2) : size_t(1), size_t(4)});
                for (size_t a = 0; a < 4; ++a) {
                    size_t n = k == 0 ? a : k == 1 ? 3 - a : a + (k == 2);
                    conn(0, a) = n;
                    for (size_t d = 0; d < 2; ++d) {
                        coor(n, d) = 0.5 * static_cast<double>(pts[t[a]][d]) - 0.25;
                    }
                }
                if (k == 2) {
                    coor(0, 0) = 17.0;
                    coor(0, 1) = -3.0;
                }
                if (k == 3) {
                    for (size_t a = 0; a < 4; ++a) {
                        conn(1, a) = 4 + a;
                        coor(4 + a, 0) = 5.0 + ((a == 1 || a == 2) ? 1.5 : 0.0);
                        coor(4 + a, 1) = (a >= 2) ? 1.0 : 0.0;
                    }
                }
                geometry(X, coor, conn);
            }
        });
    });
    // two elements that share an edge or a corner, all orders
    {
        M::Quad4::Regular m(2, 2);
        A2 coor = m.coor();
        S2 conn = m.conn();
        for (size_t moved = 0; moved < coor.shape(0); ++moved) {
            for (int d = 0; d < 4; ++d) {
                for (auto& p : permutations(4)) {
                    X.run([&]() { return "2 x 2 elements in order " + str(p) + " node " + std::to_string(moved) + " moved " + std::to_string(d); }, [&]() {
                        A2 c = coor;
                        c(moved, d % 2) += d < 2 ? 0.3 : -0.2;
                        S2 e = conn;
                        for (size_t i = 0; i < 4; ++i) {
                            for (size_t a = 0; a < 4; ++a) {
                                e(i, a) = conn(p[i], (a + moved) % 4); // also starting at another node
                            }
                        }
                        geometry(X, c, e);
                    });
                }
            }
        }
    }
    size_t most = X.deep ? 14 : X.thorough ? 8 : 5;
    for (size_t x = 1; x <= most + 3; ++x) {
        for (size_t y = 1; y <= most + 3; ++y) {
            if ((x > most) != (y > most)) {
                continue;
            }
            size_t nx = x, ny = y;
            if (nx > most) { // some larger ones
                nx = 7 + 9 * (nx - most);
                ny = 3 + 11 * (ny - most);
            }
            regular(X, nx, ny);
        }
    }
    for (size_t x : {1, 3, 6, 9, 18, 27}) {
        for (size_t y : {1, 5, 9, 13, 27, 51}) {
            X.run([&]() { return "FineLayer(" + std::to_string(x) + "," + std::to_string(y) + ")"; }, [&]() {
                M::Quad4::FineLayer m(x, y);
                A2 coor = m.coor();
                S2 conn = m.conn();
                geometry(X, coor, conn);
                size_t n = m.elemrow_nelem()(0);
                for (size_t s = 0; s <= n + 1; ++s) {
                    rolled(X, coor, conn, m.roll(s), static_cast<double>(s * x / n), static_cast<double>(x));
                }
            });
        }
    }
    // separate elements: the node map is the permutation itself
    for (size_t n = 1; n <= 4; ++n) {
        for (auto& p : permutations(n)) {
            for (auto& q : permutations(std::min<size_t>(4, n + 1))) {
                X.run([&]() { return "permutation of separate elements " + str(p) + str(q); }, [&]() {
                    A2 coor = xt::zeros<double>({4 * n, size_t(2)});
                    S2 conn = S2::from_shape({n, size_t(4)});
                    for (size_t e = 0; e < n; ++e) {
                        for (size_t a = 0; a < 4; ++a) {
                            conn(e, a) = e + n * (a < q.size() ? q[a] : a);
                        }
                    }
                    S1 em = arr(p);
                    nodemap(X, coor, conn, em);
                    S1 r = M::elemmap2nodemap(em, coor, conn);
                    for (size_t e = 0; e < n; ++e) {
                        for (size_t a = 0; a < 4; ++a) {
                            X.check(r(conn(e, a)) == conn(p[e], a), "node ", conn(e, a), " of element ", e, " takes the value of node ", r(conn(e, a)));
                        }
                    }
                });
            }
        }
    }
    // element types
    for (size_t d = 1; d <= 3; ++d) {
        for (size_t n = 1; n <= 10; ++n) {
            X.run([&]() { return "element type of " + std::to_string(n) + " nodes in " + std::to_string(d) + " dimensions"; }, [&]() {
                A2 coor = xt::zeros<double>({n, d});
                S2 conn = xt::zeros<size_t>({size_t(2), n});
                bool thrown = false;
                auto t = M::ElementType::Unknown;
                try {
                    t = M::defaultElementType(coor, conn);
                }
                catch (const std::exception&) {
                    thrown = true;
                }
                auto exp = d == 2 && n == 3 ? M::ElementType::Tri3 : d == 2 && n == 4 ? M::ElementType::Quad4 : d == 3 && n == 8 ? M::ElementType::Hex8 : M::ElementType::Unknown;
                X.check(exp == M::ElementType::Unknown ? (thrown || t == exp) : t == exp, "defaultElementType()");
            });
        }
    }
    return X.finish("all convex quadrilaterals on a grid of " + std::to_string(g) + " x " + std::to_string(g) + " (4 embeddings), all orders of 4 adjacent elements with a moved node, regular and layered meshes with all roll distances, all permutations of up to 4 separate elements");
}
#endif

#ifdef G15
static int run(Explorer& X)
{
    long g = X.deep ? 6 : X.thorough ? 5 : 4;
    std::vector<std::array<long, 2>> pts;
    for (long i = 0; i < g; ++i) {
        for (long j = 0; j < g; ++j) {
            pts.push_back({i, j});
        }
    }
    auto area = [&](const A2& x, size_t i, size_t j, size_t k) { return (x(j, 0) - x(i, 0)) * (x(k, 1) - x(i, 1)) - (x(k, 0) - x(i, 0)) * (x(j, 1) - x(i, 1)); };
    size_t stored = 0;
    // clockwise: +1, counter-clockwise: -1
    auto verify = [&](const A2& coor, const S2& conn) {
        size_t ne = conn.shape(0);
        auto o = M::Tri3::getOrientation(coor, conn);
        X.check(o.size() == ne, "size of getOrientation()");
        for (size_t e = 0; e < ne; ++e) {
            int exp = area(coor, conn(e, 0), conn(e, 1), conn(e, 2)) > 0 ? -1 : 1;
            X.check(o(e) == exp, "orientation of element ", e, " is ", o(e), " expected ", exp);
            X.observe(static_cast<size_t>(o(e) + 1));
        }
        if (ne <= 2 && ++stored % 16 != 1) {
            // other forms of storage: of some of the smallest
        }
        else {
            S2 turned = M::Tri3::setOrientation(coor, conn, 1);
            forms(coor, [&](const auto& x, const char* form) {
                X.equal(M::Tri3::getOrientation(x, conn), o, std::string("getOrientation(), coordinates ") + form);
                X.equal(M::Tri3::setOrientation(x, conn, 1), turned, std::string("setOrientation(), coordinates ") + form);
            });
            forms(conn, [&](const auto& c, const char* form) {
                X.equal(M::Tri3::getOrientation(coor, c), o, std::string("getOrientation(), ") + form);
                X.equal(M::Tri3::setOrientation(coor, c, 1), turned, std::string("setOrientation(), ") + form);
            });
        }
        for (int k = 0; k < 6; ++k) {
            int target = k % 2 ? 1 : -1;
            xt::xtensor<int, 1> val = o;
            S2 r = k < 2 ? M::Tri3::setOrientation(coor, conn, target) : k < 4 ? M::Tri3::setOrientation(coor, conn, val, target) : k == 4 ? M::Tri3::setOrientation(coor, conn) : M::Tri3::setOrientation(coor, conn, val);
            if (k >= 4) {
                target = -1;
            }
            X.same_shape(r.shape(), conn.shape(), "setOrientation()");
            auto n = M::Tri3::getOrientation(coor, r);
            for (size_t e = 0; e < ne; ++e) {
                std::array<size_t, 3> a = {conn(e, 0), conn(e, 1), conn(e, 2)}, b = {r(e, 0), r(e, 1), r(e, 2)};
                if (o(e) == target) {
                    X.check(a == b, "element ", e, " already has the orientation, but is changed");
                }
                else {
                    std::sort(a.begin(), a.end());
                    std::sort(b.begin(), b.end());
                    X.check(a == b, "element ", e, " has other nodes");
                }
                X.check(n(e) == target, "element ", e, " has orientation ", n(e), " after setting ", target);
                X.check((area(coor, r(e, 0), r(e, 1), r(e, 2)) > 0 ? -1 : 1) == target, "element ", e, " has the wrong orientation after setting ", target);
            }
        }
    };
    std::vector<std::vector<size_t>> tri;
    tuples(3, pts.size(), [&](const std::vector<size_t>& t) {
        auto &p = pts[t[0]], &q = pts[t[1]], &r = pts[t[2]];
        if ((q[0] - p[0]) * (r[1] - p[1]) - (q[1] - p[1]) * (r[0] - p[0]) != 0) {
            tri.push_back(t);
        }
    });
    A2 coor = A2::from_shape({pts.size(), size_t(2)});
    for (size_t i = 0; i < pts.size(); ++i) {
        coor(i, 0) = static_cast<double>(pts[i][0]);
        coor(i, 1) = static_cast<double>(pts[i][1]);
    }
    // every triangle; at several scales and offsets
    for (auto& t : tri) {
        X.run([&]() { return "triangle " + str(t); }, [&]() {
            for (double s : {1.0, 1e-6, 1e6}) {
                for (double x0 : {0.0, -2.25}) {
                    A2 c = coor;
                    for (auto& v : c) {
                        v = s * (v + x0);
                    }
                    verify(c, make2(1, 3, t));
                }
            }
        });
    }
    // every pair of triangles
    size_t stride = X.deep ? 31 : X.thorough ? 7 : 5;
    for (size_t i = 0; i < tri.size(); i += stride) {
        X.run([&]() { return "pairs of triangle " + str(tri[i]); }, [&]() {
            for (auto& u : tri) {
                auto c = tri[i];
                c.insert(c.end(), u.begin(), u.end());
                verify(coor, make2(2, 3, c));
            }
        });
    }
    // every orientation of every element of a mesh
    for (size_t x = 1; x <= 3; ++x) {
        for (size_t y = 1; y <= 2; ++y) {
            M::Tri3::Regular m(x, y);
            A2 xy = m.coor();
            S2 conn = m.conn();
            size_t ne = conn.shape(0);
            for (size_t bits = 0; bits < (size_t(1) << ne); ++bits) {
                X.run([&]() { return "Regular(" + std::to_string(x) + "," + std::to_string(y) + ") flipped " + std::to_string(bits); }, [&]() {
                    S2 c = conn;
                    for (size_t e = 0; e < ne; ++e) {
                        if (bits & (size_t(1) << e)) {
                            std::swap(c(e, 0), c(e, (e + bits) % 2 + 1));
                        }
                    }
                    verify(xy, c);
                });
            }
        }
    }
    // larger meshes: regular patterns of flipped elements
    for (auto& n : std::vector<std::array<size_t, 2>>{{9, 7}, {20, 11}, {33, 17}}) {
        for (size_t k = 1; k <= 9; ++k) {
            X.run([&]() { return "Regular(" + std::to_string(n[0]) + "," + std::to_string(n[1]) + ") every " + std::to_string(k) + " flipped"; }, [&]() {
                M::Tri3::Regular m(n[0], n[1]);
                S2 c = m.conn();
                for (size_t e = 0; e < c.shape(0); e += k) {
                    std::swap(c(e, 0), c(e, e % 2 + 1));
                }
                verify(m.coor(), c);
            });
        }
    }
    // slender triangles: the sign of the area is decided at all aspect ratios
    for (double t : {1e-3, 1e-6, 1e-9, 1e-12}) {
        for (size_t k = 0; k < 6; ++k) {
            X.run([&]() { return "slender triangle " + std::to_string(t) + " variant " + std::to_string(k); }, [&]() {
                A2 c = {{0.0, 0.0}, {1.0, 0.0}, {k % 2 ? 0.5 : 0.25, (k / 2) % 2 ? t : -t}, {2.0, 2.0}};
                if (k >= 4) {
                    for (size_t i = 0; i < 3; ++i) {
                        std::swap(c(i, 0), c(i, 1));
                    }
                }
                for (auto& p : permutations(3)) {
                    verify(c, make2(1, 3, p));
                    verify(c, make2(2, 3, {1, 3, 2, p[0], p[1], p[2]}));
                }
            });
        }
    }
    return X.finish("all triangles on a grid of " + std::to_string(g) + " x " + std::to_string(g) + " at 3 scales and 2 offsets, pairs of every (" + std::to_string(stride) + "-th) triangle with every triangle, all combinations of flipped elements in 6 regular meshes, patterns in larger ones; slender triangles");
}
#endif

int main(int argc, char** argv)
{
    Explorer X(argc, argv);
    return run(X);
}
