// E01 - E05: quadrature objects against an independent reference.
#include "element.h"
#include "homogeneous.h"

using namespace vh;

static double val(Lcg& r)
{
    double v = r.integer(-9, 9);
    return v >= 0 ? v + 1.0 : v;
}

template <class T>
static void fill(T& a, Lcg& r)
{
    for (auto& v : a) {
        v = val(r);
    }
}

static const double dirty = -3.25e300;

#if defined(E01) || defined(E02) || defined(E03)
// Lengths and data in any unit; and elements of which the data are zero among elements of which they are not.
template <Kind K>
void units(Explorer& X)
{
    using T = Type<K>;
    constexpr size_t nne = T::nne, nd = T::ndim, td = T::tdim;
    auto& S = shapes<K>(X.thorough);
    auto R = rules(nd);
    for (size_t start = 0; start < S.size(); start += X.thorough ? 3 : 9) {
        const size_t n = 3;
        X.run([&]() { return std::string("units ") + T::name() + " x=" + str(batch<K>(S, start, n, 1.0, false)); }, [&]() {
            A3 x0 = batch<K>(S, start, n, 1.0, false);
            auto& rule = R[start / 3 % R.size()];
            size_t nq = rule.w.size();
            Lcg r(7 * start + nq);
            A3 u0 = A3::from_shape({n, nne, nd}), v0 = A3::from_shape({n, nq, nd});
            A2 q0 = A2::from_shape({n, nq});
            A4 s0 = A4::from_shape({n, nq, td, td});
            auto C0 = xt::xtensor<double, 6>::from_shape({n, nq, td, td, td, td});
            fill(u0, r);
            fill(v0, r);
            fill(q0, r);
            fill(s0, r);
            fill(C0, r);
            auto make = [&](double s) {
                A3 x = x0 * s;
                return rule.isdefault ? T::make(x, 2.0) : T::make(x, rule.xi, rule.w, 2.0);
            };
            homogeneous(X, [&](double s, double t, auto put) {
                auto quad = make(s);
                double V = nd == 3 || K == Kind::axisym ? s * s * s : s * s;
                (void)V;
                (void)t;
#ifdef E01
                put(quad.dV(), V, "dV");
                put(quad.InterpQuad_vector(A3(u0 * t)), t, "InterpQuad_vector");
#endif
#ifdef E02
                if constexpr (K == Kind::axisym) {
                    put(quad.B(), 1.0 / s, "B");
                }
                else {
                    put(quad.GradN(), 1.0 / s, "GradN");
                }
                A3 u = u0 * t;
                put(quad.GradN_vector(u), t / s, "GradN_vector");
                put(quad.GradN_vector_T(u), t / s, "GradN_vector_T");
                put(quad.SymGradN_vector(u), t / s, "SymGradN_vector");
#endif
#ifdef E03
                put(quad.Int_N_vector_dV(A3(v0 * t)), V * t, "Int_N_vector_dV");
                put(quad.Int_N_scalar_NT_dV(A2(q0 * t)), V * t, "Int_N_scalar_NT_dV");
                put(quad.Int_gradN_dot_tensor2_dV(A4(s0 * t)), V / s * t, "Int_gradN_dot_tensor2_dV");
                put(quad.Int_gradN_dot_tensor4_dot_gradNT_dV(decltype(C0)(C0 * t)), V / s / s * t, "Int_gradN_dot_tensor4_dot_gradNT_dV");
#endif
            });
            // the elements do not affect each other: those without data give zeros
            auto quad = make(1.0);
            auto masked = [&](const auto& in, const auto& f, const auto& like, const char* what) {
                auto full = like, got = like;
                f(in, full);
                for (size_t mask = 0; mask < (1u << n); ++mask) {
                    auto part = in;
                    size_t ni = in.size() / n, no = full.size() / n;
                    for (size_t e = 0; e < n; ++e) {
                        if (mask >> e & 1) {
                            std::fill(part.data() + e * ni, part.data() + (e + 1) * ni, 0.0);
                        }
                    }
                    got.fill(dirty);
                    f(part, got);
                    for (size_t k = 0; k < got.size(); ++k) {
                        X.close1(got.data()[k], mask >> (k / no) & 1 ? 0.0 : full.data()[k], 1e-12, std::string(what) + " with elements of zeros", k);
                    }
                }
            };
            A3 on = A3::from_shape({n, nne, nd}), oq = A3::from_shape({n, nq, nd}), om = A3::from_shape({n, nne * nd, nne * nd});
            A4 ot = A4::from_shape({n, nq, td, td});
#ifdef E01
            masked(u0, [&](const auto& i, auto& o) { quad.interpQuad_vector(i, o); }, oq, "interpQuad_vector");
#endif
#ifdef E02
            masked(u0, [&](const auto& i, auto& o) { quad.gradN_vector(i, o); }, ot, "gradN_vector");
            masked(u0, [&](const auto& i, auto& o) { quad.gradN_vector_T(i, o); }, ot, "gradN_vector_T");
            masked(u0, [&](const auto& i, auto& o) { quad.symGradN_vector(i, o); }, ot, "symGradN_vector");
#endif
#ifdef E03
            masked(v0, [&](const auto& i, auto& o) { quad.int_N_vector_dV(i, o); }, on, "int_N_vector_dV");
            masked(q0, [&](const auto& i, auto& o) { quad.int_N_scalar_NT_dV(i, o); }, om, "int_N_scalar_NT_dV");
            masked(s0, [&](const auto& i, auto& o) { quad.int_gradN_dot_tensor2_dV(i, o); }, on, "int_gradN_dot_tensor2_dV");
            masked(C0, [&](const auto& i, auto& o) { quad.int_gradN_dot_tensor4_dot_gradNT_dV(i, o); }, om, "int_gradN_dot_tensor4_dot_gradNT_dV");
#endif
        });
    }
}

static void all_units(Explorer& X)
{
    units<Kind::quad4>(X);
    units<Kind::planar>(X);
    units<Kind::axisym>(X);
    units<Kind::hex8>(X);
}
#endif

#ifdef E01
template <Kind K>
void kind(Explorer& X)
{
    using T = Type<K>;
    constexpr size_t nne = T::nne, nd = T::ndim;
    auto& S = shapes<K>(X.thorough);
    auto R = rules(nd);
    static const double scales[6] = {1.0, 0.125, 3.0, 100.0, 1e-5, 1e5};
    for (auto& bt : batches(S.size(), 1, X.thorough)) {
        size_t start = bt.start, n = bt.n, k = bt.k;
        double scale = scales[k % 11 == 4 ? 4 : k % 11 == 7 ? 5 : k % 4];
        double thick = k % 5 == 0 ? 1.0 : 0.25 * static_cast<double>(k % 5);
        bool touch = k % 3 == 0;
        X.run([&]() { return std::string(T::name()) + " scale " + std::to_string(scale) + " thickness " + std::to_string(thick) + (n > 3 ? " " + std::to_string(n) + " elements from shape " + std::to_string(start) : " x=" + str(batch<K>(S, start, n, scale, touch))); }, [&]() {
            A3 x = batch<K>(S, start, n, scale, touch);
            for (auto& rule : R) {
                std::string at = rule.name + ": ";
                if (K == Kind::axisym && touch && rule.corners) {
                    continue; // a point on the axis
                }
                size_t nq = rule.w.size();
                typename T::Quad quad = rule.isdefault ? T::make(x, thick) : T::make(x, rule.xi, rule.w, thick);
                X.check(quad.nip() == nq && quad.nelem() == n, at, "nip ", quad.nip(), " nelem ", quad.nelem());
                A2 dV = quad.dV();
                X.same_shape(dV.shape(), std::array<size_t, 2>{n, nq}, at + "dV");
                A3 pos = quad.InterpQuad_vector(x);
                X.same_shape(pos.shape(), std::array<size_t, 3>{n, nq, nd}, at + "InterpQuad_vector");
                // a linear field and its interpolation
                Lcg r(17 * k + nq);
                A2 c = A2::from_shape({nd + 1, nd});
                fill(c, r);
                A3 u = A3::from_shape({n, nne, nd});
                for (size_t e = 0; e < n; ++e) {
                    for (size_t m = 0; m < nne; ++m) {
                        for (size_t j = 0; j < nd; ++j) {
                            u(e, m, j) = c(nd, j);
                            for (size_t i = 0; i < nd; ++i) {
                                u(e, m, j) += c(i, j) * x(e, m, i);
                            }
                        }
                    }
                }
                A3 uq = quad.InterpQuad_vector(u);
                A3 uq2 = A3::from_shape({n, nq, nd});
                uq2.fill(dirty);
                quad.interpQuad_vector(u, uq2);
                XA uq3 = XA::from_shape({n, nq, nd});
                uq3.fill(dirty);
                quad.interpQuad_vector(XA(u), uq3);
                X.close(uq2, uq, 0.0, at + "interpQuad_vector(dirty output)");
                X.close(uq3, uq, 0.0, at + "interpQuad_vector(xarray)");
                A3 one = A3::from_shape({n, nne, nd});
                one.fill(1.0);
                A3 oneq = quad.InterpQuad_vector(one);
                // arbitrary field
                A3 v = A3::from_shape({n, nne, nd});
                fill(v, r);
                A3 vq = quad.InterpQuad_vector(v);
                for (size_t e = 0; e < n; ++e) {
                    double total = 0.0, refvol = 0.0, gap = 0.0;
                    for (size_t q = 0; q < nq; ++q) {
                        Ref<K> ref(&x(e, 0, 0), &rule.xi(q, 0), rule.w(q), thick);
                        X.check(dV(e, q) > 0.0, at, "dV(", e, ",", q, ") = ", dV(e, q));
                        X.close1(dV(e, q) / ref.vol, 1.0, 1e-11, at + "dV relative to its definition");
                        total += dV(e, q);
                        for (size_t i = 0; i < nd; ++i) {
                            X.close1(pos(e, q, i) / scale, ref.p.x[i] / scale, 1e-11, at + "interpolated position");
                            double lin = c(nd, i), num = 0.0;
                            for (size_t j = 0; j < nd; ++j) {
                                lin += c(j, i) * ref.p.x[j];
                            }
                            for (size_t m = 0; m < nne; ++m) {
                                num += ref.p.N[m] * v(e, m, i);
                            }
                            X.close1(uq(e, q, i), lin, 1e-10, at + "linear field");
                            X.close1(oneq(e, q, i), 1.0, 1e-12, at + "constant field");
                            X.close1(vq(e, q, i), num, 1e-11, at + "arbitrary field");
                        }
                    }
                    // volume of the element, from an over-integrated Jacobian
                    auto G = R[R.size() - 2];
                    for (size_t q = 0; q < G.w.size(); ++q) {
                        refvol += Ref<K>(&x(e, 0, 0), &G.xi(q, 0), G.w(q), thick).vol;
                    }
                    if (K != Kind::hex8) { // and from its polygon
                        double area = 0.0, first = 0.0;
                        for (size_t m = 0; m < 4; ++m) {
                            double* a = &x(e, m, 0);
                            double* b = &x(e, (m + 1) % 4, 0);
                            double cr = a[0] * b[1] - a[1] * b[0];
                            area += 0.5 * cr;
                            first += cr * (a[1] + b[1]) / 6.0;
                        }
                        double poly = K == Kind::axisym ? 2.0 * std::acos(-1.0) * first : K == Kind::planar ? thick * area : area;
                        X.close1(refvol / poly, 1.0, 1e-11, "reference volume");
                    }
                    // degree per direction of the integrand: 1 for planes, 2 for volumes and axisymmetric elements
                    int degree = K == Kind::quad4 || K == Kind::planar ? 1 : 2;
                    if (K == Kind::hex8) { // an affine element has a constant Jacobian
                        double d0 = 0.0;
                        for (size_t m = 0; m < 8; ++m) {
                            double xi[3] = {corner(m, 0), corner(m, 1), corner(m, 2)};
                            double d = evaluate(8, 3, &x(e, 0, 0), xi).det;
                            gap = std::max(gap, m ? std::abs(d - d0) / std::abs(d0) : 0.0);
                            d0 = m ? d0 : d;
                        }
                        degree = gap < 1e-9 ? 0 : 2;
                    }
                    if (rule.exact >= degree) {
                        X.close1(total / refvol, 1.0, 1e-11, at + "sum of dV relative to the volume");
                    }
                }
                // vectors with another number of components
                if (K != Kind::quad4) {
                    for (size_t nc = 1; nc < 5; ++nc) {
                        A3 a = A3::from_shape({n, nne, nc});
                        fill(a, r);
                        A3 b = A3::from_shape({n, nq, nc});
                        b.fill(dirty);
                        quad.interpQuad_vector(a, b);
                        A3 b2 = quad.InterpQuad_vector(a);
                        for (size_t e = 0; e < n; ++e) {
                            for (size_t q = 0; q < nq; ++q) {
                                Point p = evaluate(nne, nd, &x(e, 0, 0), &rule.xi(q, 0));
                                for (size_t i = 0; i < nc; ++i) {
                                    double num = 0.0;
                                    for (size_t m = 0; m < nne; ++m) {
                                        num += p.N[m] * a(e, m, i);
                                    }
                                    X.close1(b(e, q, i), num, 1e-11, at + "components");
                                    X.close1(b2(e, q, i), num, 1e-11, at + "components (allocated)");
                                }
                            }
                        }
                    }
                }
            }
        });
    }
}

// The rules themselves: moments over the reference element, and one point next to every node
void tables(Explorer& X)
{
    struct Tab {
        std::string name;
        A2 xi;
        A1 w;
        size_t nip, nd;
        int exact;
        int near; // 1: point q nearest to node q; 2: at node q
    };
    std::vector<Tab> T = {
        {"Quad4::Gauss", El::Quad4::Gauss::xi(), El::Quad4::Gauss::w(), El::Quad4::Gauss::nip(), 2, 3, 1},
        {"Quad4::Nodal", El::Quad4::Nodal::xi(), El::Quad4::Nodal::w(), El::Quad4::Nodal::nip(), 2, 1, 2},
        {"Quad4::MidPoint", El::Quad4::MidPoint::xi(), El::Quad4::MidPoint::w(), El::Quad4::MidPoint::nip(), 2, 1, 0},
        {"Hex8::Gauss", El::Hex8::Gauss::xi(), El::Hex8::Gauss::w(), El::Hex8::Gauss::nip(), 3, 3, 1},
        {"Hex8::Nodal", El::Hex8::Nodal::xi(), El::Hex8::Nodal::w(), El::Hex8::Nodal::nip(), 3, 1, 2}};
    for (auto& t : T) {
        X.run([&]() { return t.name; }, [&]() {
            X.same_shape(t.xi.shape(), std::array<size_t, 2>{t.nip, t.nd}, "xi");
            X.same_shape(t.w.shape(), std::array<size_t, 1>{t.nip}, "w");
            tuples(t.nd, static_cast<size_t>(t.exact) + 1, [&](const std::vector<size_t>& p) {
                double sum = 0.0, exact = 1.0;
                for (size_t q = 0; q < t.nip; ++q) {
                    double v = t.w(q);
                    for (size_t i = 0; i < t.nd; ++i) {
                        v *= std::pow(t.xi(q, i), static_cast<double>(p[i]));
                    }
                    sum += v;
                }
                for (size_t i = 0; i < t.nd; ++i) {
                    exact *= p[i] % 2 ? 0.0 : 2.0 / (static_cast<double>(p[i]) + 1.0);
                }
                X.close1(sum, exact, 1e-13, "moment " + str(p));
            });
            for (size_t q = 0; q < t.nip && t.near; ++q) {
                for (size_t i = 0; i < t.nd; ++i) {
                    X.check(t.xi(q, i) * corner(q, i) > 0.0, "point ", q, " is not next to node ", q);
                    X.check(t.near != 2 || t.xi(q, i) == corner(q, i), "point ", q, " is not at node ", q);
                }
            }
        });
    }
}

int run(Explorer& X)
{
    tables(X);
    kind<Kind::quad4>(X);
    kind<Kind::planar>(X);
    kind<Kind::axisym>(X);
    kind<Kind::hex8>(X);
    all_units(X);
    return X.finish(std::to_string(quads(X.thorough).size()) + " quadrilaterals (each of the four nodes at 3 x 3 positions), " + std::to_string(hexes(X.thorough).size()) + " hexahedra (affine maps with entries -1, 0, 1; one or two nodes displaced), in batches of 1 to 3 and some of up to " + (X.thorough ? "515" : "130") + ", every rule offered and two others" + "; lengths and data in units of 2^-80 to 2^60; all patterns of elements without data");
}
#endif

#ifdef E02
template <Kind K>
void kind(Explorer& X)
{
    using T = Type<K>;
    constexpr size_t nne = T::nne, nd = T::ndim, td = T::tdim;
    auto& S = shapes<K>(X.thorough);
    auto R = rules(nd);
    static const double scales[6] = {1.0, 0.25, 4.0, 1.5, 1e-4, 1e4};
    for (auto& bt : batches(S.size(), 1, X.thorough)) {
        size_t start = bt.start, n = bt.n, k = bt.k;
        double scale = scales[k % 11 == 4 ? 4 : k % 11 == 7 ? 5 : k % 4];
        bool touch = k % 3 == 0;
        X.run([&]() { return std::string(T::name()) + " scale " + std::to_string(scale) + (n > 3 ? " " + std::to_string(n) + " elements from shape " + std::to_string(start) : " x=" + str(batch<K>(S, start, n, scale, touch))); }, [&]() {
            A3 x = batch<K>(S, start, n, scale, touch);
            for (auto& rule : R) {
                std::string at = rule.name + ": ";
                if (K == Kind::axisym && touch && rule.corners) {
                    continue;
                }
                size_t nq = rule.w.size();
                typename T::Quad quad = rule.isdefault ? T::make(x, 2.0) : T::make(x, rule.xi, rule.w, 2.0);
                std::vector<Ref<K>> ref;
                for (size_t e = 0; e < n; ++e) {
                    for (size_t q = 0; q < nq; ++q) {
                        ref.push_back(Ref<K>(&x(e, 0, 0), &rule.xi(q, 0), rule.w(q), 2.0));
                    }
                }
                if constexpr (K == Kind::axisym) {
                    auto B = quad.B();
                    X.same_shape(B.shape(), std::array<size_t, 6>{n, nq, nne, td, td, td}, at + "B");
                    static const size_t comp[3] = {1, 9, 0}; // nodal component of tensor component
                    for (size_t e = 0; e < n; ++e) {
                        for (size_t q = 0; q < nq; ++q) {
                            for (size_t m = 0; m < nne; ++m) {
                                tuples(3, 3, [&](const std::vector<size_t>& t) {
                                    double expect = comp[t[2]] == 9 ? 0.0 : ref[e * nq + q].B[m][t[0]][t[1]][comp[t[2]]];
                                    X.close1(scale * B(e, q, m, t[0], t[1], t[2]), scale * expect, 1e-11, at + "B" + str(t));
                                });
                            }
                        }
                    }
                }
                else {
                    A4 G = quad.GradN();
                    X.same_shape(G.shape(), std::array<size_t, 4>{n, nq, nne, nd}, at + "GradN");
                    for (size_t e = 0; e < n; ++e) {
                        for (size_t q = 0; q < nq; ++q) {
                            for (size_t i = 0; i < nd; ++i) {
                                double sum = 0.0;
                                for (size_t m = 0; m < nne; ++m) {
                                    sum += G(e, q, m, i);
                                    X.close1(scale * G(e, q, m, i), scale * ref[e * nq + q].p.dN[m][i], 1e-11, at + "GradN");
                                }
                                X.close1(scale * sum, 0.0, 1e-11, at + "sum of GradN over the nodes");
                            }
                        }
                    }
                }
                // field 0: linear; field 1: arbitrary; further: a single nodal component per element
                size_t nfield = 2 + (X.thorough ? nne * nd : 1);
                for (size_t f = 0; f < nfield; ++f) {
                    Lcg r(31 * k + nq + 1000 * f);
                    A2 c = A2::from_shape({nd + 1, nd});
                    fill(c, r);
                    A3 u = A3::from_shape({n, nne, nd});
                    if (f == 0) {
                        for (size_t e = 0; e < n; ++e) {
                            for (size_t m = 0; m < nne; ++m) {
                                for (size_t j = 0; j < nd; ++j) {
                                    u(e, m, j) = c(nd, j);
                                    for (size_t i = 0; i < nd; ++i) {
                                        u(e, m, j) += c(i, j) * x(e, m, i);
                                    }
                                }
                            }
                        }
                    }
                    else if (f == 1) {
                        fill(u, r);
                    }
                    else {
                        u.fill(0.0);
                        for (size_t e = 0; e < n; ++e) {
                            u.data()[e * nne * nd + (f - 2 + k + e) % (nne * nd)] = 1.0;
                        }
                    }
                    A4 g = quad.GradN_vector(u), gt = quad.GradN_vector_T(u), gs = quad.SymGradN_vector(u);
                    double w = f == 0 ? 1.0 : scale; // the components are of order one
                    std::array<size_t, 4> sh = {n, nq, td, td};
                    X.same_shape(g.shape(), sh, at + "GradN_vector");
                    X.same_shape(gt.shape(), sh, at + "GradN_vector_T");
                    X.same_shape(gs.shape(), sh, at + "SymGradN_vector");
                    for (size_t e = 0; e < n; ++e) {
                        for (size_t q = 0; q < nq; ++q) {
                            auto& rf = ref[e * nq + q];
                            double gu[td][td] = {{0.0}};
                            for (size_t i = 0; i < td; ++i) {
                                for (size_t j = 0; j < td; ++j) {
                                    for (size_t m = 0; m < nne; ++m) {
                                        for (size_t d = 0; d < nd; ++d) {
                                            gu[i][j] += rf.B[m][i][j][d] * u(e, m, d);
                                        }
                                    }
                                }
                            }
                            for (size_t i = 0; i < td; ++i) {
                                for (size_t j = 0; j < td; ++j) {
                                    X.close1(w * g(e, q, i, j), w * gu[i][j], 1e-10, at + "GradN_vector");
                                    X.close1(w * gt(e, q, i, j), w * gu[j][i], 1e-10, at + "GradN_vector_T");
                                    X.close1(w * gs(e, q, i, j), w * 0.5 * (gu[i][j] + gu[j][i]), 1e-10, at + "SymGradN_vector");
                                }
                            }
                            if (f == 0) { // analytic
                                if (K == Kind::axisym) {
                                    if constexpr (td == 3 && nd == 2) {
                                        double ur = c(2, 1) + c(0, 1) * rf.p.x[0] + c(1, 1) * rf.p.x[1];
                                        double expect[3][3] = {{c(1, 1), 0.0, c(1, 0)}, {0.0, ur / rf.p.x[1], 0.0}, {c(0, 1), 0.0, c(0, 0)}};
                                        for (size_t i = 0; i < 3; ++i) {
                                            for (size_t j = 0; j < 3; ++j) {
                                                X.close1(g(e, q, i, j), expect[i][j], 1e-9, at + "gradient of a linear field");
                                            }
                                        }
                                    }
                                }
                                else {
                                    for (size_t i = 0; i < td; ++i) {
                                        for (size_t j = 0; j < td; ++j) {
                                            X.close1(g(e, q, i, j), i < nd && j < nd ? c(i, j) : 0.0, 1e-9, at + "gradient of a linear field");
                                        }
                                    }
                                }
                            }
                        }
                    }
                    // caller-supplied, whatever it contained
                    A4 o = A4::from_shape(sh);
                    XA ox = XA::from_shape({n, nq, td, td});
                    XA ux = u;
                    o.fill(dirty);
                    quad.gradN_vector(u, o);
                    X.close(o, g, 0.0, at + "gradN_vector(dirty)");
                    o.fill(dirty);
                    quad.gradN_vector_T(u, o);
                    X.close(o, gt, 0.0, at + "gradN_vector_T(dirty)");
                    o.fill(dirty);
                    quad.symGradN_vector(u, o);
                    X.close(o, gs, 0.0, at + "symGradN_vector(dirty)");
                    if (f == 1) {
                        ox.fill(dirty);
                        quad.gradN_vector(ux, ox);
                        X.close(ox, g, 0.0, at + "gradN_vector(xarray)");
                        ox.fill(dirty);
                        quad.gradN_vector_T(ux, ox);
                        X.close(ox, gt, 0.0, at + "gradN_vector_T(xarray)");
                        ox.fill(dirty);
                        quad.symGradN_vector(ux, ox);
                        X.close(ox, gs, 0.0, at + "symGradN_vector(xarray)");
                    }
                }
            }
        });
    }
}

int run(Explorer& X)
{
    kind<Kind::quad4>(X);
    kind<Kind::planar>(X);
    kind<Kind::axisym>(X);
    kind<Kind::hex8>(X);
    all_units(X);
    return X.finish(std::to_string(quads(X.thorough).size()) + " quadrilaterals (each of the four nodes at 3 x 3 positions), " + std::to_string(hexes(X.thorough).size()) + " hexahedra (affine maps with entries -1, 0, 1; one or two nodes displaced), in batches of 1 to 3 and some of up to " + (X.thorough ? "515" : "130") + ", every rule offered and two others; linear, arbitrary and single-component fields" + "; lengths and data in units of 2^-80 to 2^60; all patterns of elements without data");
}
#endif

#ifdef E03
template <Kind K>
void kind(Explorer& X)
{
    using T = Type<K>;
    constexpr size_t nne = T::nne, nd = T::ndim, td = T::tdim;
    auto& S = shapes<K>(X.thorough);
    auto R = rules(nd);
    static const double scales[6] = {1.0, 0.25, 4.0, 1.5, 1e-4, 1e4};
    size_t skip = K == Kind::hex8 && !X.thorough ? 4 : 1;
    for (auto& bt : batches(S.size(), skip, X.thorough)) {
        size_t start = bt.start, n = bt.n, k = bt.k;
        double scale = scales[k % 11 == 4 ? 4 : k % 11 == 7 ? 5 : k % 4];
        bool touch = k % 3 == 0;
        X.run([&]() { return std::string(T::name()) + " scale " + std::to_string(scale) + (n > 3 ? " " + std::to_string(n) + " elements from shape " + std::to_string(start) : " x=" + str(batch<K>(S, start, n, scale, touch))); }, [&]() {
            A3 x = batch<K>(S, start, n, scale, touch);
            for (auto& rule : R) {
                std::string at = rule.name + ": ";
                if (K == Kind::axisym && touch && rule.corners) {
                    continue;
                }
                if (K == Kind::hex8 && rule.name == "Gauss3" && k % 8) {
                    continue;
                }
                size_t nq = rule.w.size();
                typename T::Quad quad = rule.isdefault ? T::make(x, 2.0) : T::make(x, rule.xi, rule.w, 2.0);
                std::vector<Ref<K>> ref;
                for (size_t e = 0; e < n; ++e) {
                    for (size_t q = 0; q < nq; ++q) {
                        ref.push_back(Ref<K>(&x(e, 0, 0), &rule.xi(q, 0), rule.w(q), 2.0));
                    }
                }
                Lcg r(13 * k + nq);
                // all integrals are made of order one
                double U = 1.0 / std::pow(scale, K == Kind::hex8 || K == Kind::axisym ? 3.0 : 2.0), U1 = U * scale, U2 = U1 * scale;
                // N * vector
                for (size_t nc = 1; nc < 5; ++nc) {
                    A3 v = A3::from_shape({n, nq, nc});
                    fill(v, r);
                    A3 f = quad.Int_N_vector_dV(v);
                    X.same_shape(f.shape(), std::array<size_t, 3>{n, nne, nc}, at + "Int_N_vector_dV");
                    for (size_t e = 0; e < n; ++e) {
                        for (size_t m = 0; m < nne; ++m) {
                            for (size_t i = 0; i < nc; ++i) {
                                double s = 0.0;
                                for (size_t q = 0; q < nq; ++q) {
                                    auto& rf = ref[e * nq + q];
                                    s += rf.p.N[m] * v(e, q, i) * rf.vol;
                                }
                                X.close1(U * f(e, m, i), U * s, 1e-10, at + "Int_N_vector_dV");
                            }
                        }
                    }
                    A3 o = A3::from_shape({n, nne, nc});
                    o.fill(dirty);
                    quad.int_N_vector_dV(v, o);
                    X.close(o, f, 0.0, at + "int_N_vector_dV(dirty)");
                    if (nc == nd) {
                        XA ox = o;
                        ox.fill(dirty);
                        quad.int_N_vector_dV(XA(v), ox);
                        X.close(ox, f, 0.0, at + "int_N_vector_dV(xarray)");
                    }
                }
                // N * scalar * N^T
                {
                    A2 rho = A2::from_shape({n, nq});
                    fill(rho, r);
                    A3 M = quad.Int_N_scalar_NT_dV(rho);
                    X.same_shape(M.shape(), std::array<size_t, 3>{n, nne * nd, nne * nd}, at + "Int_N_scalar_NT_dV");
                    for (size_t e = 0; e < n; ++e) {
                        double mass = 0.0, sum = 0.0;
                        for (size_t q = 0; q < nq; ++q) {
                            mass += rho(e, q) * ref[e * nq + q].vol;
                        }
                        for (size_t a = 0; a < nne * nd; ++a) {
                            for (size_t b = 0; b < nne * nd; ++b) {
                                double s = 0.0;
                                if (a % nd == b % nd) {
                                    for (size_t q = 0; q < nq; ++q) {
                                        auto& rf = ref[e * nq + q];
                                        s += rf.p.N[a / nd] * rho(e, q) * rf.p.N[b / nd] * rf.vol;
                                    }
                                }
                                X.close1(U * M(e, a, b), U * s, 1e-10, at + "Int_N_scalar_NT_dV");
                                sum += a % nd == 0 && b % nd == 0 ? M(e, a, b) : 0.0;
                            }
                        }
                        X.close1(U * sum, U * mass, 1e-9, at + "total mass");
                    }
                    A3 o = M;
                    o.fill(dirty);
                    quad.int_N_scalar_NT_dV(rho, o);
                    X.close(o, M, 0.0, at + "int_N_scalar_NT_dV(dirty)");
                    XA ox = o;
                    ox.fill(dirty);
                    quad.int_N_scalar_NT_dV(XA(rho), ox);
                    X.close(ox, M, 0.0, at + "int_N_scalar_NT_dV(xarray)");
                }
                // gradN . tensor2
                {
                    A4 sig = A4::from_shape({n, nq, td, td});
                    fill(sig, r);
                    A3 f = quad.Int_gradN_dot_tensor2_dV(sig);
                    X.same_shape(f.shape(), std::array<size_t, 3>{n, nne, nd}, at + "Int_gradN_dot_tensor2_dV");
                    for (size_t e = 0; e < n; ++e) {
                        double balance[3] = {0, 0, 0};
                        for (size_t m = 0; m < nne; ++m) {
                            for (size_t d = 0; d < nd; ++d) {
                                double s = 0.0;
                                for (size_t q = 0; q < nq; ++q) {
                                    auto& rf = ref[e * nq + q];
                                    for (size_t i = 0; i < td; ++i) {
                                        for (size_t j = 0; j < td; ++j) {
                                            s += rf.B[m][i][j][d] * sig(e, q, i, j) * rf.vol;
                                        }
                                    }
                                }
                                X.close1(U1 * f(e, m, d), U1 * s, 1e-9, at + "Int_gradN_dot_tensor2_dV");
                                balance[d] += f(e, m, d);
                            }
                        }
                        for (size_t d = 0; d < nd; ++d) {
                            if (K != Kind::axisym || d == 0) { // the hoop stress is balanced radially by itself
                                X.close1(U1 * balance[d], 0.0, 1e-8, at + "balance of internal forces");
                            }
                        }
                    }
                    A3 o = f;
                    o.fill(dirty);
                    quad.int_gradN_dot_tensor2_dV(sig, o);
                    X.close(o, f, 0.0, at + "int_gradN_dot_tensor2_dV(dirty)");
                    XA ox = o;
                    ox.fill(dirty);
                    quad.int_gradN_dot_tensor2_dV(XA(sig), ox);
                    X.close(ox, f, 0.0, at + "int_gradN_dot_tensor2_dV(xarray)");
                }
                // gradN . tensor4 . gradN^T
                {
                    auto C = xt::xtensor<double, 6>::from_shape({n, nq, td, td, td, td});
                    fill(C, r);
                    A3 Ke = quad.Int_gradN_dot_tensor4_dot_gradNT_dV(C);
                    X.same_shape(Ke.shape(), std::array<size_t, 3>{n, nne * nd, nne * nd}, at + "Int_gradN_dot_tensor4_dot_gradNT_dV");
                    A3 u = A3::from_shape({n, nne, nd});
                    fill(u, r);
                    A4 gu = quad.GradN_vector(u);
                    A4 sig = A4::from_shape({n, nq, td, td});
                    sig.fill(0.0);
                    std::vector<double> expect(nne * nd * nne * nd);
                    for (size_t e = 0; e < n; ++e) {
                        std::fill(expect.begin(), expect.end(), 0.0);
                        for (size_t q = 0; q < nq; ++q) {
                            auto& rf = ref[e * nq + q];
                            for (size_t b = 0; b < nne; ++b) {
                                for (size_t g = 0; g < nd; ++g) {
                                    // stress due to a unit nodal displacement
                                    double s[td][td] = {{0.0}};
                                    for (size_t i = 0; i < td; ++i) {
                                        for (size_t j = 0; j < td; ++j) {
                                            for (size_t d = 0; d < td; ++d) {
                                                for (size_t l = 0; l < td; ++l) {
                                                    s[i][j] += C(e, q, i, j, d, l) * rf.B[b][l][d][g];
                                                }
                                            }
                                        }
                                    }
                                    for (size_t a = 0; a < nne; ++a) {
                                        for (size_t c = 0; c < nd; ++c) {
                                            double v = 0.0;
                                            for (size_t i = 0; i < td; ++i) {
                                                for (size_t j = 0; j < td; ++j) {
                                                    v += rf.B[a][i][j][c] * s[i][j];
                                                }
                                            }
                                            expect[(a * nd + c) * nne * nd + b * nd + g] += v * rf.vol;
                                        }
                                    }
                                }
                            }
                            for (size_t i = 0; i < td; ++i) {
                                for (size_t j = 0; j < td; ++j) {
                                    for (size_t d = 0; d < td; ++d) {
                                        for (size_t l = 0; l < td; ++l) {
                                            sig(e, q, i, j) += C(e, q, i, j, d, l) * gu(e, q, l, d);
                                        }
                                    }
                                }
                            }
                        }
                        for (size_t a = 0; a < nne * nd; ++a) {
                            for (size_t b = 0; b < nne * nd; ++b) {
                                X.close1(U2 * Ke(e, a, b), U2 * expect[a * nne * nd + b], 1e-9, at + "Int_gradN_dot_tensor4_dot_gradNT_dV");
                            }
                        }
                    }
                    A3 f = quad.Int_gradN_dot_tensor2_dV(sig);
                    for (size_t e = 0; e < n; ++e) {
                        for (size_t a = 0; a < nne * nd; ++a) {
                            double s = 0.0;
                            for (size_t b = 0; b < nne * nd; ++b) {
                                s += Ke(e, a, b) * u(e, b / nd, b % nd);
                            }
                            X.close1(U2 * s, U2 * f(e, a / nd, a % nd), 1e-8, at + "stiffness times displacement against force of the stress");
                        }
                    }
                    A3 o = Ke;
                    o.fill(dirty);
                    quad.int_gradN_dot_tensor4_dot_gradNT_dV(C, o);
                    X.close(o, Ke, 0.0, at + "int_gradN_dot_tensor4_dot_gradNT_dV(dirty)");
                    if (k % 4 == 0) {
                        XA ox = o;
                        ox.fill(dirty);
                        quad.int_gradN_dot_tensor4_dot_gradNT_dV(XA(C), ox);
                        X.close(ox, Ke, 0.0, at + "int_gradN_dot_tensor4_dot_gradNT_dV(xarray)");
                    }
                }
            }
        });
    }
}

int run(Explorer& X)
{
    kind<Kind::quad4>(X);
    kind<Kind::planar>(X);
    kind<Kind::axisym>(X);
    kind<Kind::hex8>(X);
    all_units(X);
    return X.finish(std::to_string(quads(X.thorough).size()) + " quadrilaterals (each of the four nodes at 3 x 3 positions), " + std::to_string(hexes(X.thorough).size()) + " hexahedra (affine maps with entries -1, 0, 1; one or two nodes displaced" + (X.thorough ? ")" : "; one of four batches)") + ", in batches of 1 to 3 and some of up to " + (X.thorough ? "515" : "130") + ", every rule offered and two others; one integrand without any symmetry each" + "; lengths and data in units of 2^-80 to 2^60; all patterns of elements without data");
}
#endif

#ifdef E04
// two objects and all sequences of operations on them
template <Kind K>
void kind(Explorer& X, size_t N, size_t depth)
{
    using T = Type<K>;
    using Quad = typename T::Quad;
    constexpr size_t nne = T::nne, nd = T::ndim, td = T::tdim;
    auto& S = shapes<K>(false);
    auto R = rules(nd);
    const size_t npos = 6, nb = 3;
    // positions: every set has elements of different shapes
    std::vector<A3> P;
    for (size_t p = 0; p < 3; ++p) {
        P.push_back(batch<K>(S, 5 + 37 * p, N, 1.0 + 0.5 * static_cast<double>(p), false));
    }
    // positions close to the first: all coordinates slightly different; one element different; one coordinate different
    P.push_back(A3(P[0] * (1.0 + 1e-9)));
    P.push_back(P[0]);
    for (size_t k = (N - 1) * nne * nd; k < N * nne * nd; ++k) {
        P[4].data()[k] = P[1].data()[k];
    }
    P.push_back(P[0]);
    P[5].data()[N * nne * nd - 1] += 0.01;
    struct State {
        size_t pos, cfg; // cfg: 0: all elements, Gauss; 1: half of the elements, other rule
    };
    auto positions = [&](size_t p, size_t cfg) {
        size_t n = cfg ? N / 2 : N;
        A3 x = A3::from_shape({n, nne, nd});
        std::copy(P[p].data(), P[p].data() + x.size(), x.data());
        return x;
    };
    auto fresh = [&](const State& s) {
        A3 x = positions(s.pos, s.cfg);
        auto& r = s.cfg ? R.back() : R[0];
        return s.cfg ? T::make(x, r.xi, r.w, 0.5) : T::make(x, 3.0);
    };
    auto observe = [&](const Quad& q) {
        std::vector<double> o;
        auto put = [&](const auto& a) {
            o.push_back(static_cast<double>(a.size()));
            o.insert(o.end(), a.begin(), a.end());
        };
        size_t n = q.nelem(), nq = q.nip();
        Lcg r(n * 100 + nq);
        put(q.dV());
        if constexpr (K == Kind::axisym) {
            put(q.B());
        }
        else {
            put(q.GradN());
        }
        A3 u = A3::from_shape({n, nne, nd});
        fill(u, r);
        put(q.InterpQuad_vector(u));
        put(q.GradN_vector(u));
        put(q.GradN_vector_T(u));
        put(q.SymGradN_vector(u));
        A3 v = A3::from_shape({n, nq, nd});
        fill(v, r);
        put(q.Int_N_vector_dV(v));
        A2 rho = A2::from_shape({n, nq});
        fill(rho, r);
        put(q.Int_N_scalar_NT_dV(rho));
        A4 sig = A4::from_shape({n, nq, td, td});
        fill(sig, r);
        put(q.Int_gradN_dot_tensor2_dV(sig));
        auto C = xt::xtensor<double, 6>::from_shape({n, nq, td, td, td, td});
        fill(C, r);
        put(q.Int_gradN_dot_tensor4_dot_gradNT_dV(C));
        return o;
    };
    std::map<size_t, std::vector<double>> cache;
    auto expect = [&](const State& s) -> const std::vector<double>& {
        auto& v = cache[s.pos * 2 + s.cfg];
        if (v.empty()) {
            v = observe(fresh(s));
        }
        return v;
    };
    const size_t nop = npos + nb + 6;
    static const char* names[] = {"a=P0", "a=P1", "a=P2", "a=P0*(1+1e-9)", "a=P0, last element of P1", "a=P0, last coordinate + 0.01", "b=P0", "b=P1", "b=P2", "a:=b", "b:=a", "b:=copy(a)", "a:=moved copy of b", "a:=a", "evaluate a"};
    if (K == Kind::hex8 && depth > 2) {
        depth -= 1;
    }
    for (size_t d = 0; d <= depth; ++d) {
        tuples(d, nop, [&](const std::vector<size_t>& ops) {
            X.run([&]() {
                std::string s = std::string(T::name()) + " (" + std::to_string(N) + " elements)";
                for (auto o : ops) {
                    s += std::string(" ") + names[o];
                }
                return s;
            }, [&]() {
                State sa{0, 0}, sb{1, 1};
                Quad a = fresh(sa), b = fresh(sb);
                for (auto o : ops) {
                    if (o < npos) {
                        a.update_x(positions(o, sa.cfg));
                        sa.pos = o;
                    }
                    else if (o < npos + nb) {
                        b.update_x(XA(positions(o - npos, sb.cfg)));
                        sb.pos = o - npos;
                    }
                    else if (o == npos + nb) {
                        a = b;
                        sa = sb;
                    }
                    else if (o == npos + nb + 1) {
                        b = a;
                        sb = sa;
                    }
                    else if (o == npos + nb + 2) {
                        Quad c(a);
                        b = c;
                        sb = sa;
                    }
                    else if (o == npos + nb + 3) {
                        Quad c(b);
                        a = std::move(c);
                        sa = sb;
                    }
                    else if (o == npos + nb + 4) {
                        const Quad& c = a;
                        a = c;
                    }
                    else {
                        observe(a);
                    }
                    ++X.transitions;
                    X.state((sa.pos * 2 + sa.cfg) * 16 + sb.pos * 2 + sb.cfg + 1000 * static_cast<size_t>(K) + 10000 * N);
                }
                for (int pass = 0; pass < 2; ++pass) { // evaluation does not change anything
                    auto oa = observe(a), ob = observe(b);
                    auto& ea = expect(sa);
                    auto& eb = expect(sb);
                    X.check(oa.size() == ea.size() && ob.size() == eb.size(), "sizes differ");
                    for (size_t i = 0; i < oa.size(); ++i) {
                        X.close1(oa[i], ea[i], 0.0, "object a against a fresh one", i);
                    }
                    for (size_t i = 0; i < ob.size(); ++i) {
                        X.close1(ob[i], eb[i], 0.0, "object b against a fresh one", i);
                    }
                }
            }, !ops.empty());
        });
    }
}

int run(Explorer& X)
{
    size_t depth = X.thorough ? 5 : 4;
    for (auto& p : std::vector<std::array<size_t, 2>>{{2, depth}, {67, 2}}) {
        kind<Kind::quad4>(X, p[0], p[1]);
        kind<Kind::planar>(X, p[0], p[1]);
        kind<Kind::axisym>(X, p[0], p[1]);
        kind<Kind::hex8>(X, p[0], p[1]);
    }
    return X.finish("all sequences of up to " + std::to_string(depth) + " (hexahedra: " + std::to_string(depth - 1) + ") of 15 operations (updates to 3 and 6 positions, some nearly equal, assignments, copies, evaluations) on two objects with different numbers of elements (2 and 1; 67 and 33 up to length 2) and rules, for 4 element types");
}
#endif

#ifdef E05
template <Kind K>
void kind(Explorer& X)
{
    using T = Type<K>;
    constexpr size_t nne = T::nne, nd = T::ndim, td = T::tdim;
    auto& S = shapes<K>(false);
    auto R = rules(nd);
    std::vector<size_t> numbers = {1, 2, 3, 4, 33, 130};
    if (X.thorough) {
        numbers.insert(numbers.end(), {5, 6, 7, 8, 9, 16, 64, 257});
    }
    for (size_t n : numbers) {
        for (auto& rule : R) {
            X.run([&]() { return std::string(T::name()) + " nelem " + std::to_string(n) + " " + rule.name; }, [&]() {
                A3 x = batch<K>(S, 7, n, 1.0, false);
                typename T::Quad quad = rule.isdefault ? T::make(x, 1.0) : T::make(x, rule.xi, rule.w, 1.0);
                size_t q = rule.w.size();
                X.check(quad.nelem() == n && quad.nip() == q && quad.nne() == nne && quad.ndim() == nd && quad.tdim() == td, "dimensions");
                using V = std::vector<size_t>;
                auto same = [&](const auto& a, const V& b, const char* what) { X.same_shape(a, b, what); };
                same(quad.shape_elemvec(), V{n, nne, nd}, "shape_elemvec");
                same(quad.shape_elemmat(), V{n, nne * nd, nne * nd}, "shape_elemmat");
                same(quad.shape_qscalar(), V{n, q}, "shape_qscalar");
                same(quad.shape_qvector(), V{n, q, td}, "shape_qvector");
                same(quad.template shape_qtensor<0>(), V{n, q}, "shape_qtensor<0>");
                same(quad.template shape_qtensor<1>(), V{n, q, td}, "shape_qtensor<1>");
                same(quad.template shape_qtensor<2>(), V{n, q, td, td}, "shape_qtensor<2>");
                same(quad.template shape_qtensor<3>(), V{n, q, td, td, td}, "shape_qtensor<3>");
                same(quad.template shape_qtensor<4>(), V{n, q, td, td, td, td}, "shape_qtensor<4>");
                for (size_t r = 0; r < 6; ++r) {
                    V s{n, q};
                    s.resize(2 + r, td);
                    same(quad.shape_qtensor(r), s, "shape_qtensor(rank)");
                    for (size_t a = 1; a < 5; ++a) {
                        V t{n, q};
                        t.resize(2 + r, a);
                        same(quad.shape_qtensor(r, a), t, "shape_qtensor(rank, dim)");
                    }
                    same(quad.template allocate_qtensor<double>(r).shape(), s, "allocate_qtensor(rank)");
                    auto c = quad.template allocate_qtensor<double>(r, 1.25);
                    same(c.shape(), s, "allocate_qtensor(rank, value)");
                    for (auto v : c) {
                        X.check(v == 1.25, "allocate_qtensor(rank, value): ", v);
                    }
                }
                for (size_t a = 1; a < 5; ++a) {
                    same(quad.shape_elemvec(a), V{n, nne, a}, "shape_elemvec(dim)");
                    same(quad.shape_qvector(a), V{n, q, a}, "shape_qvector(dim)");
                    same(quad.template shape_qtensor<0>(0, a), V{n, q}, "shape_qtensor<0>(dim)");
                    same(quad.template shape_qtensor<2>(2, a), V{n, q, a, a}, "shape_qtensor<2>(dim)");
                    same(quad.template shape_qtensor<3>(3, a), V{n, q, a, a, a}, "shape_qtensor<3>(dim)");
                }
                auto filled = [&](const auto& a, const V& s, auto value, const char* what) {
                    X.same_shape(a.shape(), s, what);
                    for (auto v : a) {
                        X.check(v == value, what, ": ", v);
                    }
                    X.observe(a.size());
                };
                same(quad.template allocate_elemvec<double>().shape(), V{n, nne, nd}, "allocate_elemvec");
                same(quad.template allocate_elemmat<double>().shape(), V{n, nne * nd, nne * nd}, "allocate_elemmat");
                same(quad.template allocate_qscalar<double>().shape(), V{n, q}, "allocate_qscalar");
                filled(quad.template allocate_elemvec<double>(2.5), V{n, nne, nd}, 2.5, "allocate_elemvec(value)");
                filled(quad.template allocate_elemvec<int>(-3), V{n, nne, nd}, -3, "allocate_elemvec<int>(value)");
                filled(quad.template allocate_elemmat<double>(-1.5), V{n, nne * nd, nne * nd}, -1.5, "allocate_elemmat(value)");
                filled(quad.template allocate_qscalar<double>(0.5), V{n, q}, 0.5, "allocate_qscalar(value)");
                filled(quad.template allocate_qtensor<1, double>(4.0), V{n, q, td}, 4.0, "allocate_qtensor<1>(value)");
                filled(quad.template allocate_qtensor<2, double>(4.0), V{n, q, td, td}, 4.0, "allocate_qtensor<2>(value)");
                filled(quad.template allocate_qtensor<4, int>(9), V{n, q, td, td, td, td}, 9, "allocate_qtensor<4>(value)");
                same(quad.template allocate_qtensor<2, double>().shape(), V{n, q, td, td}, "allocate_qtensor<2>");
                // broadcasting
                Lcg r(n * 10 + q);
                A2 s = A2::from_shape({n, q});
                fill(s, r);
                auto repeated = [&](const auto& a, size_t rank, const char* what) {
                    V sh{n, q};
                    sh.resize(2 + rank, td);
                    X.same_shape(a.shape(), sh, what);
                    size_t block = a.size() / (n * q), i = 0;
                    for (auto v : a) {
                        X.check(v == s.data()[i / block], what, ": component ", i, " is ", v, " expected ", s.data()[i / block]);
                        X.observe(v);
                        ++i;
                    }
                };
                repeated(quad.template AsTensor<0>(s), 0, "AsTensor<0>");
                repeated(quad.template AsTensor<1>(s), 1, "AsTensor<1>");
                repeated(quad.template AsTensor<2>(s), 2, "AsTensor<2>");
                repeated(quad.template AsTensor<3>(s), 3, "AsTensor<3>");
                repeated(quad.template AsTensor<4>(s), 4, "AsTensor<4>");
                for (size_t k = 0; k < 6; ++k) {
                    repeated(quad.AsTensor(k, s), k, "AsTensor(rank)");
                    repeated(quad.AsTensor(k, XA(s)), k, "AsTensor(rank, xarray)");
                    XA o = quad.template allocate_qtensor<double>(k, dirty);
                    quad.asTensor(s, o);
                    repeated(o, k, "asTensor(xarray output)");
                    o.fill(dirty);
                    quad.asTensor(XA(s), o);
                    repeated(o, k, "asTensor(xarray)");
                }
                auto o1 = quad.template allocate_qtensor<1, double>(dirty);
                auto o2 = quad.template allocate_qtensor<2, double>(dirty);
                auto o4 = quad.template allocate_qtensor<4, double>(dirty);
                quad.asTensor(s, o1);
                quad.asTensor(s, o2);
                quad.asTensor(s, o4);
                repeated(o1, 1, "asTensor(rank 1)");
                repeated(o2, 2, "asTensor(rank 2)");
                repeated(o4, 4, "asTensor(rank 4)");
            });
        }
    }
}

void general(Explorer& X)
{
    // all shapes of the argument (rank 1 to 3, extents 1 to 3) and all added ranks and extents
    size_t top = X.deep ? 5 : X.thorough ? 4 : 3;
    for (size_t rank = 1; rank <= 3; ++rank) {
        tuples(rank, top, [&](const std::vector<size_t>& t) {
            std::vector<size_t> sh(rank);
            for (size_t i = 0; i < rank; ++i) {
                sh[i] = t[i] + 1;
            }
            for (size_t n = 1; n <= 3; ++n) {
                X.run([&]() { return "AsTensor of " + str(sh) + " to dimension " + std::to_string(n); }, [&]() {
                    Lcg r(n);
                    XA a = XA::from_shape(sh);
                    fill(a, r);
                    auto repeated = [&](const auto& o, const std::vector<size_t>& tail, const char* what) {
                        std::vector<size_t> s = sh;
                        s.insert(s.end(), tail.begin(), tail.end());
                        X.same_shape(o.shape(), s, what);
                        size_t block = o.size() / a.size(), i = 0;
                        for (auto v : o) {
                            X.check(v == a.data()[i / block], what, ": component ", i, " is ", v, " expected ", a.data()[i / block]);
                            X.observe(v);
                            ++i;
                        }
                    };
                    auto fixed = [&](const auto& f) {
                        repeated(GooseFEM::AsTensor<0>(f, n), {}, "AsTensor<0>");
                        repeated(GooseFEM::AsTensor<1>(f, n), {n}, "AsTensor<1>");
                        repeated(GooseFEM::AsTensor<2>(f, n), {n, n}, "AsTensor<2>");
                        repeated(GooseFEM::AsTensor<3>(f, n), {n, n, n}, "AsTensor<3>");
                        repeated(GooseFEM::AsTensor(f, std::array<size_t, 2>{n, n + 1}), {n, n + 1}, "AsTensor(array)");
                        repeated(GooseFEM::AsTensor(f, {n + 2, n}), {n + 2, n}, "AsTensor({...})");
                        repeated(GooseFEM::AsTensor(f, std::vector<size_t>{n, 1, n + 1}), {n, 1, n + 1}, "AsTensor(vector)");
                    };
                    if (rank == 1) {
                        fixed(A1(a));
                    }
                    if (rank == 2) {
                        fixed(A2(a));
                    }
                    if (rank == 3) {
                        fixed(A3(a));
                    }
                    for (size_t k = 0; k < 5; ++k) {
                        repeated(GooseFEM::AsTensor(k, a, n), std::vector<size_t>(k, n), "AsTensor(rank)");
                    }
                    repeated(GooseFEM::AsTensor(a, std::vector<size_t>{n, n + 1}), {n, n + 1}, "AsTensor(xarray, vector)");
                    XA o = GooseFEM::AsTensor(a, std::vector<size_t>{n, n + 1});
                    o.fill(dirty);
                    GooseFEM::asTensor(a, o);
                    repeated(o, {n, n + 1}, "asTensor(dirty)");
                    // part of a larger array, other orders of storage
                    std::vector<size_t> wide;
                    for (auto i : sh) {
                        wide.push_back(2 * i + 3);
                    }
                    XA big(wide, dirty);
                    auto part = [&](const auto& v, const char* what) {
                        for (size_t k = 0; k < 3; ++k) {
                            repeated(GooseFEM::AsTensor(k, v, n), std::vector<size_t>(k, n), what);
                        }
                        repeated(GooseFEM::AsTensor(v, std::vector<size_t>{n, n + 1}), {n, n + 1}, what);
                        o.fill(dirty);
                        GooseFEM::asTensor(v, o);
                        repeated(o, {n, n + 1}, what);
                    };
                    for (std::ptrdiff_t step : {1, 2, -1}) {
                        xt::xstrided_slice_vector sl;
                        for (auto i : sh) {
                            std::ptrdiff_t m = i;
                            if (step > 0) {
                                sl.push_back(xt::range(1, 1 + step * m, step));
                            }
                            else {
                                sl.push_back(xt::range(m, std::ptrdiff_t(0), step));
                            }
                        }
                        auto v = xt::strided_view(big, sl);
                        v = a;
                        part(v, "AsTensor/asTensor of a strided view");
                        big.fill(dirty);
                    }
                    if (rank == 2) {
                        A3 b({sh[0], sh[1], 3}, dirty);
                        auto v = xt::view(b, xt::all(), xt::all(), 2);
                        v = a;
                        part(v, "AsTensor/asTensor of a component");
                        A2 f({sh[0] + 2, sh[1] + 2}, dirty);
                        auto w = xt::view(f, xt::range(1, sh[0] + 1), xt::range(2, sh[1] + 2));
                        w = a;
                        part(w, "AsTensor/asTensor of a range");
                    }
                    xt::xarray<double, xt::layout_type::column_major> c = a;
                    part(c, "AsTensor/asTensor of a column-major array");
                });
            }
        });
    }
    for (size_t n = 1; n <= (X.thorough ? 300 : 70); ++n) {
        for (size_t d = 1; d <= 3; ++d) {
            X.run([&]() { return "as3d of " + std::to_string(n) + " x " + std::to_string(d); }, [&]() {
                Lcg r(n * 5 + d);
                A2 a = A2::from_shape({n, d});
                fill(a, r);
                auto three = [&](const auto& o, const char* what) {
                    X.same_shape(o.shape(), std::array<size_t, 2>{n, 3}, what);
                    for (size_t i = 0; i < n; ++i) {
                        for (size_t j = 0; j < 3; ++j) {
                            double e = j < d ? a(i, j) : 0.0;
                            X.check(o(i, j) == e, what, "(", i, ",", j, ") is ", o(i, j), " expected ", e);
                            X.observe(o(i, j));
                        }
                    }
                };
                three(GooseFEM::as3d(a), "as3d");
                three(GooseFEM::as3d(XA(a)), "as3d(xarray)");
                S2 b = xt::cast<size_t>(xt::abs(a));
                auto c = GooseFEM::as3d(b);
                for (size_t i = 0; i < n; ++i) {
                    for (size_t j = 0; j < 3; ++j) {
                        X.check(c(i, j) == (j < d ? b(i, j) : 0), "as3d<size_t>");
                    }
                }
            });
        }
    }
}

int run(Explorer& X)
{
    kind<Kind::quad4>(X);
    kind<Kind::planar>(X);
    kind<Kind::axisym>(X);
    kind<Kind::hex8>(X);
    general(X);
    return X.finish("4 element types, up to " + std::to_string(X.thorough ? 9 : 4) + " (and some of up to " + (X.thorough ? "257" : "130") + ") elements, every rule offered and two others, ranks 0 to 5; arguments of rank 1 to 3 with extents up to " + std::to_string(X.thorough ? 4 : 3) + " broadcast by up to 4 dimensions of extent 1 to 4; nodal vectors of up to " + (X.thorough ? "300" : "70") + " nodes extended to three components");
}
#endif

#ifdef E06
#include <GooseFEM/assertions.h>

int run(Explorer& X)
{
    size_t top = X.deep ? 7 : X.thorough ? 6 : 5;
    for (size_t len = 1; len <= top; ++len) {
        tuples(len, len + 1, [&](const std::vector<size_t>& t) {
            X.run([&]() { return "numbers " + str(t); }, [&]() {
                std::set<size_t> s(t.begin(), t.end());
                bool seq = *s.rbegin() + 1 == s.size();
                bool uni = s.size() == t.size();
                S1 a = S1::from_shape({len});
                std::copy(t.begin(), t.end(), a.begin());
                X.observe(seq);
                X.observe(uni);
                X.observe(len);
                auto both = [&](const auto& v, const char* what) {
                    X.check(El::isSequential(v) == seq, "isSequential(", what, ") is ", !seq);
                    X.check(GooseFEM::is_unique(v) == uni, "is_unique(", what, ") is ", !uni);
                };
                both(a, "list");
                both(xt::xarray<size_t>(a), "xarray");
                for (size_t k = 2; k <= len; ++k) {
                    if (len % k == 0) {
                        S2 b = make2(len / k, k, t);
                        both(b, "matrix");
                    }
                }
                // shifted by one: a gap at zero, other types
                S1 b = a + 1;
                X.check(!El::isSequential(b), "isSequential of a list without zero");
                X.check(GooseFEM::is_unique(b) == uni, "is_unique of a shifted list");
                xt::xtensor<int, 1> c = xt::cast<int>(a);
                c -= 2;
                X.check(GooseFEM::is_unique(c) == uni, "is_unique of signed numbers");
                A1 d = 0.5 * xt::cast<double>(a);
                X.check(GooseFEM::is_unique(d) == uni, "is_unique of floating-point numbers");
            });
        });
    }
    X.run([]() { return std::string("empty list"); }, [&]() {
        S1 a = S1::from_shape({0});
        X.check(GooseFEM::is_unique(a), "is_unique of an empty list");
        X.observe(7);
    });
    // diagonal: all matrices with entries in a small set
    double eps = std::numeric_limits<double>::epsilon();
    const double v[4] = {0.0, 1.0, -1.0, -8.0 * eps};
    for (size_t ne = 1; ne <= 2; ++ne) {
        for (size_t n = 1; n <= 2; ++n) {
            tuples(ne * n * n, 4, [&](const std::vector<size_t>& t) {
                X.run([&]() { return "matrices " + std::to_string(ne) + " of " + std::to_string(n) + ": " + str(t); }, [&]() {
                    A3 m = A3::from_shape({ne, n, n});
                    bool diag = true;
                    for (size_t i = 0; i < t.size(); ++i) {
                        m.data()[i] = v[t[i]];
                        size_t k = i % (n * n);
                        if (k / n != k % n && t[i] != 0) {
                            diag = false;
                        }
                    }
                    X.observe(diag);
                    X.observe(ne * 10 + n);
                    X.check(El::isDiagonal(m) == diag, "isDiagonal is ", !diag);
                });
            });
        }
    }
    // a single entry of a larger list of matrices
    for (size_t ne = 1; ne <= 5; ++ne) {
        for (size_t n = 2; n <= (X.thorough ? 12 : 8); ++n) {
            X.run([&]() { return "single entry in " + std::to_string(ne) + " matrices of " + std::to_string(n); }, [&]() {
                A3 m = A3::from_shape({ne, n, n});
                m.fill(0.0);
                for (size_t e = 0; e < ne; ++e) {
                    for (size_t i = 0; i < n; ++i) {
                        m(e, i, i) = 1.0 + static_cast<double>(e * i);
                    }
                }
                X.check(El::isDiagonal(m), "isDiagonal of diagonal matrices");
                for (size_t e = 0; e < ne; ++e) {
                    for (size_t i = 0; i < n; ++i) {
                        for (size_t j = 0; j < n; ++j) {
                            if (i != j) {
                                m(e, i, j) = (i + j) % 2 ? -0.5 : 0.5;
                                X.check(!El::isDiagonal(m), "isDiagonal with entry ", e, ",", i, ",", j);
                                m(e, i, j) = 0.0;
                            }
                        }
                    }
                }
                X.observe(ne * 100 + n);
            });
        }
    }
    return X.finish("all lists of up to " + std::to_string(top) + " numbers below length + 1 in all matrix shapes; all lists of up to 2 matrices of up to 2 x 2 with 4 values, single entries in up to 5 larger matrices");
}
#endif

int main(int argc, char** argv)
{
    Explorer X(argc, argv);
    return run(X);
}
