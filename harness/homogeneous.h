// Magnitude: storing, multiplying, solving are homogeneous. Results do not depend on the unit in which data are given;
// powers of two make the comparison free of rounding, so that also entries that are tiny (or huge) are really checked.
#ifndef VERIF_HOMOGENEOUS_H
#define VERIF_HOMOGENEOUS_H
#include "linalg.h"

namespace vh {

// eval(s, t, put): results for matrices in unit "s" and vectors in unit "t"; put(array, unit of that array, name)
template <class F>
void homogeneous(Explorer& X, F&& eval)
{
    struct Item {
        std::vector<double> v;
        std::string name;
    };
    auto collect = [&](double s, double t) {
        std::vector<Item> r;
        auto put = [&](const auto& a, double unit, const std::string& name) {
            Item i;
            i.name = name;
            for (auto v : a) {
                i.v.push_back(v / unit);
            }
            r.push_back(i);
        };
        eval(s, t, put);
        return r;
    };
    auto ref = collect(1.0, 1.0);
    for (auto& st : std::vector<std::array<int, 2>>{{-70, 0}, {60, 0}, {0, -70}, {0, 60}, {-60, -60}, {40, -80}}) {
        auto got = collect(std::ldexp(1.0, st[0]), std::ldexp(1.0, st[1]));
        X.check(got.size() == ref.size(), "harness: homogeneous");
        for (size_t k = 0; k < ref.size(); ++k) {
            double norm = 0.0;
            for (auto v : ref[k].v) {
                norm = std::max(norm, std::abs(v));
            }
            X.check(got[k].v.size() == ref[k].v.size(), ref[k].name, ": size depends on the magnitude of the data");
            for (size_t i = 0; i < ref[k].v.size(); ++i) {
                X.check(std::abs(got[k].v[i] - ref[k].v[i]) <= 1e-9 * norm, ref[k].name, ": entry ", i, " is ", got[k].v[i], " times the unit, expected ", ref[k].v[i],
                        " (matrices in units of 2^", st[0], ", vectors in units of 2^", st[1], ")");
            }
        }
    }
}

// worlds for this: the real meshes that are small and a few tiny ones with shared DOFs
template <class F>
void homogeneous_worlds(F&& f)
{
    World w;
    w.conn = make2(2, 2, {0, 1, 1, 2});
    w.dofs = make2(3, 1, {2, 0, 1});
    f(w);
    w.conn = make2(2, 2, {0, 1, 1, 2});
    w.dofs = make2(3, 2, {3, 0, 1, 2, 4, 1});
    f(w);
    real_meshes(false, [&](const A2& coor, const S2& conn, const std::string& name) {
        if (coor.size() > 60) {
            return;
        }
        numberings(coor.shape(0), coor.shape(1), [&](const S2& dofs, const std::string& d) {
            World r;
            r.conn = conn;
            r.dofs = dofs;
            r.name = name + " " + d;
            r.real = true;
            f(r);
        });
    });
}

// matrices of which the elements differ by orders of magnitude
inline A3 graded(const A3& K)
{
    A3 r = K;
    for (size_t e = 0; e < K.shape(0); ++e) {
        for (size_t i = 0; i < K.shape(1); ++i) {
            for (size_t j = 0; j < K.shape(2); ++j) {
                r(e, i, j) = std::ldexp(K(e, i, j), -static_cast<int>(e % 4) * 17);
            }
        }
    }
    return r;
}

// entry by entry, each relative to itself (sums of integers times powers of two: no cancellation noise beyond 1e-12 of the terms)
template <class A>
void close_graded(Explorer& X, const A& got, const A2& ref, const A2& terms, const std::string& what)
{
    for (size_t i = 0; i < ref.shape(0); ++i) {
        for (size_t j = 0; j < ref.shape(1); ++j) {
            X.check(std::abs(got(i, j) - ref(i, j)) <= 1e-12 * terms(i, j), what, ": entry (", i, ",", j, ") is ", got(i, j), " expected ", ref(i, j));
        }
    }
}

// element matrices given, and the full matrix taken, in other forms of storage
template <class Make>
void stored(Explorer& X, const World& w, const A3& K, Make make)
{
    A2 ref = zeros2(w.ndof(), w.ndof());
    size_t nd = w.ndim();
    for (size_t e = 0; e < w.nelem(); ++e) {
        for (size_t a = 0; a < K.shape(1); ++a) {
            for (size_t b = 0; b < K.shape(2); ++b) {
                ref(w.dofs(w.conn(e, a / nd), a % nd), w.dofs(w.conn(e, b / nd), b % nd)) += K(e, a, b);
            }
        }
    }
    forms(K, [&](const auto& k, const char* form) {
        auto A = make();
        A.assemble(k);
        X.close(A2(A.Todense()), ref, 1e-12, std::string("Todense(), assembled from: ") + form);
        if (form == std::string("column-major")) {
            xt::xtensor<double, 2, xt::layout_type::column_major> c = ref;
            c.fill(-7.25e300);
            A.todense(c);
            X.close(c, ref, 1e-12, "todense(column-major)");
            XA x = ref;
            x.fill(-7.25e300);
            A.todense(x);
            X.close(x, ref, 1e-12, "todense(xarray)");
        }
    });
}

} // namespace vh
#endif
