// V01 conversions, V02 assembly (compile with -DV01 or -DV02).
#include "homogeneous.h"
using namespace vh;


template <class T>
static T garbage(const T& like)
{
    T r = like;
    r.fill(G1);
    return r;
}

#ifdef V01
static void conversions(Explorer& X, const World& w)
{
    GooseFEM::Vector v0(w.conn, w.dofs);
    GooseFEM::Vector v = v0; // copies must be equivalent
    size_t ndof = w.ndof();

    X.check(v.nelem() == w.nelem() && v.nne() == w.nne() && v.nnode() == w.nnode() && v.ndim() == w.ndim() &&
                v.ndof() == ndof, "sizes");
    X.equal(v.conn(), w.conn, "conn()");
    X.equal(v.dofs(), w.dofs, "dofs()");
    X.same_shape(v.shape_dofval(), std::array<size_t, 1>{ndof}, "shape_dofval");
    X.same_shape(v.shape_nodevec(), std::array<size_t, 2>{w.nnode(), w.ndim()}, "shape_nodevec");
    X.same_shape(v.shape_elemvec(), std::array<size_t, 3>{w.nelem(), w.nne(), w.ndim()}, "shape_elemvec");
    size_t N = w.nne() * w.ndim();
    X.same_shape(v.shape_elemmat(), std::array<size_t, 3>{w.nelem(), N, N}, "shape_elemmat");
    X.same_shape(v.allocate_dofval().shape(), v.shape_dofval(), "allocate_dofval");
    X.same_shape(v.allocate_nodevec().shape(), v.shape_nodevec(), "allocate_nodevec");
    X.same_shape(v.allocate_elemvec().shape(), v.shape_elemvec(), "allocate_elemvec");
    X.same_shape(v.allocate_elemmat().shape(), v.shape_elemmat(), "allocate_elemmat");

    // reference
    A1 d = A1::from_shape({ndof});
    for (size_t i = 0; i < ndof; ++i) {
        d(i) = dofvalue(i);
    }
    A2 n = A2::from_shape({w.nnode(), w.ndim()});
    for (size_t m = 0; m < w.nnode(); ++m) {
        for (size_t i = 0; i < w.ndim(); ++i) {
            n(m, i) = d(w.dofs(m, i));
        }
    }
    A3 e = A3::from_shape({w.nelem(), w.nne(), w.ndim()});
    std::vector<bool> noderef(w.nnode(), false), dofref_n(ndof, false), dofref_e(ndof, false);
    for (size_t k = 0; k < w.nelem(); ++k) {
        for (size_t m = 0; m < w.nne(); ++m) {
            noderef[w.conn(k, m)] = true;
            for (size_t i = 0; i < w.ndim(); ++i) {
                e(k, m, i) = n(w.conn(k, m), i);
                dofref_e[w.dofs(w.conn(k, m), i)] = true;
            }
        }
    }
    for (auto i : w.dofs) {
        dofref_n[i] = true;
    }
    A1 d_n = d, d_e = d;
    for (size_t i = 0; i < ndof; ++i) {
        if (!dofref_n[i]) {
            d_n(i) = 0;
        }
        if (!dofref_e[i]) {
            d_e(i) = 0;
        }
    }
    A2 n_e = n;
    for (size_t m = 0; m < w.nnode(); ++m) {
        for (size_t i = 0; i < w.ndim(); ++i) {
            if (!noderef[m]) {
                n_e(m, i) = 0;
            }
        }
    }

    X.equal(v.allocate_dofval(2.5), A1(2.5 * xt::ones_like(d)), "allocate_dofval(val)");
    X.equal(v.allocate_nodevec(2.5), A2(2.5 * xt::ones_like(n)), "allocate_nodevec(val)");
    X.equal(v.allocate_elemvec(2.5), A3(2.5 * xt::ones_like(e)), "allocate_elemvec(val)");
    {
        auto em = v.allocate_elemmat(2.5);
        for (auto q : em) {
            X.check(q == 2.5, "allocate_elemmat(val)");
        }
    }

    XA xd = d, xn = n, xe = e;

#define CONV(UP, lo, in, xin, expect) \
    do { \
        X.equal(v.UP(in), expect, #UP "(" #in ")"); \
        X.equal(v.UP(xin), expect, #UP "(xarray " #in ")"); \
        auto r = garbage(expect); \
        v.lo(in, r); \
        X.equal(r, expect, #lo "(" #in ", dirty output)"); \
        r = garbage(expect); \
        v.lo(xin, r); \
        X.equal(r, expect, #lo "(xarray " #in ", dirty output)"); \
        XA x = garbage(expect); \
        v.lo(in, x); \
        X.equal(x, expect, #lo "(" #in ", dirty xarray output)"); \
        v.lo(in, r); \
        X.equal(r, expect, #lo "(" #in ", re-used output)"); \
    } while (0)

    CONV(AsNode, asNode, d, xd, n);
    CONV(AsElement, asElement, d, xd, e);
    CONV(AsElement, asElement, n, xn, e);
    CONV(AsDofs, asDofs, n, xn, d_n);
    CONV(AsDofs, asDofs, e, xe, d_e);
    CONV(AsNode, asNode, e, xe, n_e);

    // other forms of storage
#define FORM(UP, lo, in, expect) \
    do { \
        forms(in, [&](const auto& x, const char* form) { X.equal(v.UP(x), expect, std::string(#UP "(" #in ", ") + form); }); \
        forms_out(X, expect, G1, #lo "(" #in ")", [&](auto& r) { v.lo(in, r); }); \
    } while (0)
    FORM(AsNode, asNode, d, n);
    FORM(AsElement, asElement, d, e);
    FORM(AsElement, asElement, n, e);
    FORM(AsDofs, asDofs, n, d_n);
    FORM(AsDofs, asDofs, e, d_e);
    FORM(AsNode, asNode, e, n_e);

    // the arguments are untouched and the object is still the same
    X.equal(xd, d, "argument modified");
    X.equal(xn, n, "argument modified");
    X.equal(xe, e, "argument modified");
    X.equal(v0.AsElement(d), e, "original object");

    // copies
    A2 other = A2::from_shape(n.shape());
    for (size_t i = 0; i < other.size(); ++i) {
        other.data()[i] = -static_cast<double>(i) - 1;
    }
    A2 keep = other;
    X.equal(v.Copy(n, other), n, "Copy");
    X.equal(other, keep, "Copy changed its destination argument");
    v.copy(n, other);
    X.equal(other, n, "copy");

    // assignment over an object of a different mesh
    S2 c1 = S2::from_shape({1, 1}), d1 = S2::from_shape({1, 1});
    c1.fill(0);
    d1.fill(0);
    GooseFEM::Vector u(c1, d1);
    u = v0;
    X.equal(u.AsElement(n), e, "assigned object");
    X.equal(u.AsDofs(n), d_n, "assigned object");
    X.check(u.ndof() == ndof && u.nnode() == w.nnode(), "assigned sizes");
}
#endif

#ifdef V02
static void assembly(Explorer& X, const World& w)
{
    GooseFEM::Vector v(w.conn, w.dofs);
    size_t ndof = w.ndof();

    A2 n = A2::from_shape({w.nnode(), w.ndim()});
    A3 e = A3::from_shape({w.nelem(), w.nne(), w.ndim()});
    Contribution cn(n.size()), ce(e.size());
    for (auto& i : n) {
        i = cn();
    }
    for (auto& i : e) {
        i = ce();
    }
    for (int round = 0; round < 3; ++round) {
        A1 d_n = xt::zeros<double>({ndof}), d_e = xt::zeros<double>({ndof});
        A2 nn = xt::zeros<double>({w.nnode(), w.ndim()});
        double tot_n = 0, tot_e = 0;
        for (size_t m = 0; m < w.nnode(); ++m) {
            for (size_t i = 0; i < w.ndim(); ++i) {
                d_n(w.dofs(m, i)) += n(m, i);
                tot_n += n(m, i);
            }
        }
        size_t top = 0;
        for (size_t k = 0; k < w.nelem(); ++k) {
            for (size_t m = 0; m < w.nne(); ++m) {
                top = std::max(top, static_cast<size_t>(w.conn(k, m)));
                for (size_t i = 0; i < w.ndim(); ++i) {
                    d_e(w.dofs(w.conn(k, m), i)) += e(k, m, i);
                    nn(w.conn(k, m), i) += e(k, m, i);
                    tot_e += e(k, m, i);
                }
            }
        }
        A2 n_e = A2::from_shape(n.shape());
        for (size_t m = 0; m < w.nnode(); ++m) {
            for (size_t i = 0; i < w.ndim(); ++i) {
                n_e(m, i) = d_e(w.dofs(m, i));
            }
        }
        XA xn = n, xe = e;
        A1 r = A1::from_shape({ndof});
        A2 r2 = A2::from_shape(n.shape());
        r.fill(G1);
        r2.fill(G1);

        X.equal(v.AssembleDofs(n), d_n, "AssembleDofs(nodevec)");
        X.equal(v.AssembleDofs(xn), d_n, "AssembleDofs(xarray nodevec)");
        v.assembleDofs(n, r);
        X.equal(r, d_n, "assembleDofs(nodevec, dirty)");
        X.equal(v.AssembleDofs(e), d_e, "AssembleDofs(elemvec)");
        X.equal(v.AssembleDofs(xe), d_e, "AssembleDofs(xarray elemvec)");
        v.assembleDofs(e, r);
        X.equal(r, d_e, "assembleDofs(elemvec, re-used)");
        v.assembleDofs(e, r);
        X.equal(r, d_e, "assembleDofs(elemvec, re-used twice)");
        v.assembleDofs(xn, r);
        X.equal(r, d_n, "assembleDofs(xarray nodevec, re-used)");
        XA xr = r;
        v.assembleDofs(xe, xr);
        X.equal(xr, d_e, "assembleDofs(xarray elemvec, xarray re-used)");
        X.equal(v.AssembleNode(e), n_e, "AssembleNode(elemvec)");
        X.equal(v.AssembleNode(xe), n_e, "AssembleNode(xarray elemvec)");
        v.assembleNode(e, r2);
        X.equal(r2, n_e, "assembleNode(elemvec, dirty)");
        v.assembleNode(xe, r2);
        X.equal(r2, n_e, "assembleNode(xarray elemvec, re-used)");
        forms(n, [&](const auto& x, const char* form) { X.equal(v.AssembleDofs(x), d_n, std::string("AssembleDofs(nodevec, ") + form); });
        forms(e, [&](const auto& x, const char* form) { X.equal(v.AssembleDofs(x), d_e, std::string("AssembleDofs(elemvec, ") + form); });
        forms(e, [&](const auto& x, const char* form) { X.equal(v.AssembleNode(x), n_e, std::string("AssembleNode(elemvec, ") + form); });
        forms_out(X, d_n, G1, "assembleDofs(nodevec)", [&](auto& q) { v.assembleDofs(n, q); });
        forms_out(X, d_e, G1, "assembleDofs(elemvec)", [&](auto& q) { v.assembleDofs(e, q); });
        forms_out(X, n_e, G1, "assembleNode(elemvec)", [&](auto& q) { v.assembleNode(e, q); });
        X.check(xt::sum(d_n)() == tot_n && xt::sum(d_e)() == tot_e, "oracle total");

        // element-to-node functions without DOFs
        A2 an = GooseFEM::Element::assembleNodeVector(w.conn, e);
        A2 expect = xt::view(nn, xt::range(0, top + 1), xt::all());
        X.equal(an, expect, "assembleNodeVector");
        A3 ev = GooseFEM::Element::asElementVector(w.conn, n);
        A3 eexp = A3::from_shape(e.shape());
        for (size_t k = 0; k < w.nelem(); ++k) {
            for (size_t m = 0; m < w.nne(); ++m) {
                for (size_t i = 0; i < w.ndim(); ++i) {
                    eexp(k, m, i) = n(w.conn(k, m), i);
                }
            }
        }
        X.equal(ev, eexp, "asElementVector");

        // second round: sparse contributions, signs, cancellation; third round: nothing but zeros
        for (size_t i = 0; i < n.size(); ++i) {
            n.data()[i] = round || (i % 3 == 0) ? 0.0 : static_cast<double>(i % 5) - 2.0;
        }
        for (size_t i = 0; i < e.size(); ++i) {
            e.data()[i] = round || (i % 4 == 1) ? 0.0 : 3.0 - static_cast<double>(i % 7);
        }
    }
}
#endif

static A1 dofdata(size_t n, double t)
{
    A1 r = A1::from_shape({n});
    for (size_t i = 0; i < n; ++i) { // three orders of magnitude
        r(i) = std::ldexp(t * (static_cast<double>((i * 5 + 3) % 17) - 6.5), -static_cast<int>(i % 3) * 20);
    }
    return r;
}

static void magnitude(Explorer& X, const World& w)
{
    GooseFEM::Vector v(w.conn, w.dofs);
    homogeneous(X, [&](double, double t, auto put) {
        A1 d = dofdata(w.ndof(), t);
        A2 n = v.AsNode(d);
        A3 e = v.AsElement(d);
#ifdef V01
        put(n, t, "AsNode(dofval)");
        put(e, t, "AsElement(dofval)");
        put(v.AsElement(n), t, "AsElement(nodevec)");
        put(v.AsNode(e), t, "AsNode(elemvec)");
        put(v.AsDofs(n), t, "AsDofs(nodevec)");
        put(v.AsDofs(e), t, "AsDofs(elemvec)");
        put(v.Copy(n, n), t, "Copy");
#else
        put(v.AssembleDofs(n), t, "AssembleDofs(nodevec)");
        put(v.AssembleDofs(e), t, "AssembleDofs(elemvec)");
        put(v.AssembleNode(e), t, "AssembleNode(elemvec)");
#endif
    });
}

int main(int argc, char** argv)
{
    Explorer X(argc, argv);
    worlds(X.thorough, [&](const World& w) {
        X.run([&]() { return w.str(); },
              [&]() {
#ifdef V01
                  conversions(X, w);
#endif
#ifdef V02
                  assembly(X, w);
#endif
              },
              w.dofs.size() > 1);
    }, X.deep ? 2 : 1);
#ifdef V01
    for (auto& w : few_dofs()) {
        zero_patterns(w.ndof(), {0}, [&]() {
            X.run([&]() { return "zeros " + w.str() + " pattern " + std::to_string(zero_mask()); }, [&]() { conversions(X, w); });
        });
    }
#endif
    homogeneous_worlds([&](const World& w) {
        X.run([&]() { return "magnitude " + w.str(); }, [&]() { magnitude(X, w); });
    });
    return X.finish(std::string(X.deep ? "tiny shapes up to 3 nodes x 2 dim, 2 nodes x 3 dim, 5 nodes x 1 dim, 3 elements; " : "") + "all connectivities x all DOF numberings in [0,n)^n of tiny shapes (up to 2 nodes x 2 dim, 3-4 nodes x 1 dim, "
                    "2 elements), all sharing patterns of 2x3 and 3x2 node components, regular meshes x 6 numberings up to 23x17; results scale with the data by 2^-80 to 2^60; all patterns of zeros in the data");
}
