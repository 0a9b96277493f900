// Independent reference of quadrature on bilinear/trilinear elements and enumeration of element shapes.
#ifndef VERIF_ELEMENT_H
#define VERIF_ELEMENT_H

#include "world.h"

namespace vh {

namespace El = GooseFEM::Element;

enum class Kind { quad4, planar, axisym, hex8 };

template <Kind K>
struct Type;

template <>
struct Type<Kind::quad4> {
    using Quad = El::Quad4::Quadrature;
    static constexpr size_t nne = 4, ndim = 2, tdim = 2;
    static const char* name() { return "Quad4"; }
    template <class X>
    static Quad make(const X& x, double) { return Quad(x); }
    template <class X>
    static Quad make(const X& x, const A2& xi, const A1& w, double) { return Quad(x, xi, w); }
};
template <>
struct Type<Kind::planar> {
    using Quad = El::Quad4::QuadraturePlanar;
    static constexpr size_t nne = 4, ndim = 2, tdim = 3;
    static const char* name() { return "Quad4Planar"; }
    template <class X>
    static Quad make(const X& x, double t) { return Quad(x, t); }
    template <class X>
    static Quad make(const X& x, const A2& xi, const A1& w, double t) { return Quad(x, xi, w, t); }
};
template <>
struct Type<Kind::axisym> {
    using Quad = El::Quad4::QuadratureAxisymmetric;
    static constexpr size_t nne = 4, ndim = 2, tdim = 3;
    static const char* name() { return "Quad4Axisymmetric"; }
    template <class X>
    static Quad make(const X& x, double) { return Quad(x); }
    template <class X>
    static Quad make(const X& x, const A2& xi, const A1& w, double) { return Quad(x, xi, w); }
};
template <>
struct Type<Kind::hex8> {
    using Quad = El::Hex8::Quadrature;
    static constexpr size_t nne = 8, ndim = 3, tdim = 3;
    static const char* name() { return "Hex8"; }
    template <class X>
    static Quad make(const X& x, double) { return Quad(x); }
    template <class X>
    static Quad make(const X& x, const A2& xi, const A1& w, double) { return Quad(x, xi, w); }
};

// signs of the corners, in the documented node order
inline double corner(size_t m, size_t i)
{
    static const double s[8][3] = {{-1, -1, -1}, {1, -1, -1}, {1, 1, -1}, {-1, 1, -1},
                                   {-1, -1, 1},  {1, -1, 1},  {1, 1, 1},  {-1, 1, 1}};
    return s[m][i];
}

struct Point {
    std::vector<double> N; // [nne]
    std::vector<std::array<double, 3>> dN; // [nne][ndim] with respect to the position
    double det;
    std::array<double, 3> x;
};

// Shape functions, gradients and Jacobian at local position "xi" of element with nodes x[nne][ndim]
inline Point evaluate(size_t nne, size_t nd, const double* x, const double* xi)
{
    Point p;
    p.N.resize(nne);
    p.dN.resize(nne);
    std::vector<std::array<double, 3>> d(nne);
    double norm = nd == 2 ? 0.25 : 0.125;
    for (size_t m = 0; m < nne; ++m) {
        double f[3];
        p.N[m] = norm;
        for (size_t i = 0; i < nd; ++i) {
            f[i] = 1.0 + corner(m, i) * xi[i];
            p.N[m] *= f[i];
        }
        for (size_t i = 0; i < nd; ++i) {
            d[m][i] = norm * corner(m, i);
            for (size_t j = 0; j < nd; ++j) {
                if (j != i) {
                    d[m][i] *= f[j];
                }
            }
        }
    }
    double J[3][3] = {{0}}; // J[i][j] = dx_i / dxi_j
    p.x = {0, 0, 0};
    for (size_t m = 0; m < nne; ++m) {
        for (size_t i = 0; i < nd; ++i) {
            p.x[i] += p.N[m] * x[m * nd + i];
            for (size_t j = 0; j < nd; ++j) {
                J[i][j] += x[m * nd + i] * d[m][j];
            }
        }
    }
    // solve dN/dxi_j = sum_i dN/dx_i J[i][j] by Cramer's rule
    if (nd == 2) {
        p.det = J[0][0] * J[1][1] - J[0][1] * J[1][0];
        for (size_t m = 0; m < nne; ++m) {
            p.dN[m][0] = (d[m][0] * J[1][1] - d[m][1] * J[1][0]) / p.det;
            p.dN[m][1] = (d[m][1] * J[0][0] - d[m][0] * J[0][1]) / p.det;
        }
    }
    else {
        auto det3 = [](double a[3][3]) {
            return a[0][0] * (a[1][1] * a[2][2] - a[1][2] * a[2][1]) - a[0][1] * (a[1][0] * a[2][2] - a[1][2] * a[2][0]) +
                   a[0][2] * (a[1][0] * a[2][1] - a[1][1] * a[2][0]);
        };
        p.det = det3(J);
        for (size_t m = 0; m < nne; ++m) {
            for (size_t i = 0; i < 3; ++i) {
                double A[3][3];
                for (size_t r = 0; r < 3; ++r) {
                    for (size_t c = 0; c < 3; ++c) {
                        A[r][c] = r == i ? d[m][c] : J[r][c];
                    }
                }
                p.dN[m][i] = det3(A) / p.det;
            }
        }
    }
    return p;
}

struct Rule {
    std::string name;
    A2 xi;
    A1 w;
    bool isdefault = false;
    int exact = 0; // exact for monomials up to this degree per direction
    bool corners = false; // has points at the corners
};

inline std::vector<Rule> rules(size_t nd)
{
    std::vector<Rule> r;
    auto product = [&](const std::vector<double>& x, const std::vector<double>& w, const std::string& name) {
        size_t n = x.size();
        size_t total = nd == 2 ? n * n : n * n * n;
        Rule s;
        s.name = name;
        s.xi = A2::from_shape({total, nd});
        s.w = A1::from_shape({total});
        for (size_t q = 0; q < total; ++q) {
            size_t k = q;
            s.w(q) = 1.0;
            for (size_t i = 0; i < nd; ++i) {
                s.xi(q, i) = x[k % n];
                s.w(q) *= w[k % n];
                k /= n;
            }
        }
        s.exact = 5;
        return s;
    };
    if (nd == 2) {
        r.push_back({"default", El::Quad4::Gauss::xi(), El::Quad4::Gauss::w(), true, 3, false});
        r.push_back({"Gauss", El::Quad4::Gauss::xi(), El::Quad4::Gauss::w(), false, 3, false});
        r.push_back({"Nodal", El::Quad4::Nodal::xi(), El::Quad4::Nodal::w(), false, 1, true});
        r.push_back({"MidPoint", El::Quad4::MidPoint::xi(), El::Quad4::MidPoint::w(), false, 1, false});
    }
    else {
        r.push_back({"default", El::Hex8::Gauss::xi(), El::Hex8::Gauss::w(), true, 3, false});
        r.push_back({"Gauss", El::Hex8::Gauss::xi(), El::Hex8::Gauss::w(), false, 3, false});
        r.push_back({"Nodal", El::Hex8::Nodal::xi(), El::Hex8::Nodal::w(), false, 1, true});
    }
    double g = std::sqrt(0.6);
    r.push_back(product({-g, 0.0, g}, {5.0 / 9.0, 8.0 / 9.0, 5.0 / 9.0}, "Gauss3"));
    Rule s; // points and weights without any symmetry, not exact for anything but constants
    s.name = "skew";
    s.xi = A2::from_shape({3, nd});
    s.w = A1::from_shape({3});
    double v[3][3] = {{-0.5, 0.25, 0.125}, {0.75, -0.375, -0.25}, {0.125, 0.625, -0.75}};
    double sum = nd == 2 ? 4.0 : 8.0;
    for (size_t q = 0; q < 3; ++q) {
        for (size_t i = 0; i < nd; ++i) {
            s.xi(q, i) = v[q][i];
        }
    }
    s.w(0) = sum / 2.0;
    s.w(1) = sum / 8.0;
    s.w(2) = sum * 3.0 / 8.0;
    r.push_back(s);
    return r;
}

// admissible: positive Jacobian in the whole element (checked at the corners, edge and face centres and interior grid)
inline bool admissible(size_t nne, size_t nd, const double* x)
{
    std::vector<double> g = nd == 2 ? std::vector<double>{-1, 1} : std::vector<double>{-1, -0.5, 0, 0.5, 1};
    size_t n = g.size();
    size_t total = nd == 2 ? n * n : n * n * n;
    for (size_t q = 0; q < total; ++q) {
        double xi[3] = {0, 0, 0};
        size_t k = q;
        for (size_t i = 0; i < nd; ++i) {
            xi[i] = g[k % n];
            k /= n;
        }
        if (evaluate(nne, nd, x, xi).det < 0.05) {
            return false;
        }
    }
    return true;
}

using Shape = std::vector<double>;

// All quadrilaterals whose nodes are moved over a grid of (2 * g + 1)^2 positions around a square with edge 2 * g,
// in every rotation of the numbering (or one of them in turn).
inline const std::vector<Shape>& quads(bool thorough)
{
    static std::vector<Shape> ret;
    if (!ret.empty()) {
        return ret;
    }
    size_t count = 0;
    tuples(4, 9, [&](const std::vector<size_t>& t) {
        Shape s(8);
        for (size_t m = 0; m < 4; ++m) {
            s[m * 2 + 0] = 2.0 * (corner(m, 0) > 0) + static_cast<double>(t[m] % 3) - 1.0;
            s[m * 2 + 1] = 2.0 * (corner(m, 1) > 0) + static_cast<double>(t[m] / 3) - 1.0;
        }
        if (!admissible(4, 2, s.data())) {
            return;
        }
        for (size_t rot = 0; rot < 4; ++rot) {
            if (!thorough && rot != count % 4) {
                continue;
            }
            Shape u(8);
            for (size_t m = 0; m < 4; ++m) {
                u[m * 2 + 0] = s[((m + rot) % 4) * 2 + 0];
                u[m * 2 + 1] = s[((m + rot) % 4) * 2 + 1];
            }
            ret.push_back(u);
        }
        ++count;
    });
    return ret;
}

inline const std::vector<Shape>& hexes(bool thorough)
{
    static std::vector<Shape> ret;
    if (!ret.empty()) {
        return ret;
    }
    auto base = [](double a) {
        Shape s(24);
        for (size_t m = 0; m < 8; ++m) {
            for (size_t i = 0; i < 3; ++i) {
                s[m * 3 + i] = corner(m, i) > 0 ? a : 0.0;
            }
        }
        return s;
    };
    auto add = [&](const Shape& s) {
        if (admissible(8, 3, s.data())) {
            ret.push_back(s);
        }
    };
    // affine: all matrices with entries -1, 0, 1
    size_t count = 0;
    tuples(9, 3, [&](const std::vector<size_t>& t) {
        Shape b = base(2.0), s(24, 0.0);
        for (size_t m = 0; m < 8; ++m) {
            for (size_t i = 0; i < 3; ++i) {
                for (size_t j = 0; j < 3; ++j) {
                    s[m * 3 + i] += (static_cast<double>(t[i * 3 + j]) - 1.0) * b[m * 3 + j];
                }
            }
        }
        if (admissible(8, 3, s.data()) && (thorough || count++ % 16 == 0)) {
            ret.push_back(s);
        }
    });
    // one or two nodes displaced
    static const double axis[7][3] = {{1, 0, 0}, {-1, 0, 0}, {0, 1, 0}, {0, -1, 0}, {0, 0, 1}, {0, 0, -1}, {1, 1, 1}};
    for (size_t a = 0; a < 8; ++a) {
        for (size_t o = 1; o < 27; ++o) {
            Shape s = base(3.0);
            s[a * 3 + 0] += static_cast<double>((o + 13) % 27 % 3) - 1.0;
            s[a * 3 + 1] += static_cast<double>((o + 13) % 27 / 3 % 3) - 1.0;
            s[a * 3 + 2] += static_cast<double>((o + 13) % 27 / 9) - 1.0;
            add(s);
        }
        for (size_t b = a + 1; b < 8; ++b) {
            if (!thorough) {
                for (size_t u = 0; u < 7; u += 1 + (a + b) % 2) {
                    for (size_t v = (a + u) % 3; v < 7; v += 3) {
                        Shape s = base(3.0);
                        for (size_t i = 0; i < 3; ++i) {
                            s[a * 3 + i] += axis[u][i];
                            s[b * 3 + i] += axis[v][i];
                        }
                        add(s);
                    }
                }
                continue;
            }
            for (size_t u = 0; u < 27; ++u) {
                for (size_t v = 0; v < 27; ++v) {
                    Shape s = base(3.0);
                    size_t d = 1;
                    for (size_t i = 0; i < 3; ++i) {
                        s[a * 3 + i] += static_cast<double>(u / d % 3) - 1.0;
                        s[b * 3 + i] += static_cast<double>(v / d % 3) - 1.0;
                        d *= 3;
                    }
                    add(s);
                }
            }
        }
    }
    // both ends of the numbering: all 24 rotations of a distorted element
    return ret;
}

// Positions of a batch of elements: consecutive shapes, scaled and translated. For axisymmetric elements the radius
// (second coordinate) is positive, or zero at some nodes if "touch".
template <Kind K>
A3 batch(const std::vector<Shape>& shapes, size_t start, size_t n, double scale, bool touch)
{
    constexpr size_t nne = Type<K>::nne, nd = Type<K>::ndim;
    A3 x = A3::from_shape({n, nne, nd});
    for (size_t e = 0; e < n; ++e) {
        const Shape& s = shapes[(start + e) % shapes.size()];
        double rmin = 1e300;
        for (size_t m = 0; m < nne; ++m) {
            rmin = std::min(rmin, s[m * nd + 1]);
        }
        for (size_t m = 0; m < nne; ++m) {
            for (size_t i = 0; i < nd; ++i) {
                double v = s[m * nd + i] + (i == 0 ? 3.0 * static_cast<double>(e % 7) : 1.0);
                if (K == Kind::axisym && i == 1) {
                    v = s[m * nd + i] - rmin + (touch ? 0.0 : 1.0 + static_cast<double>(e % 7));
                }
                x(e, m, i) = scale * v;
            }
        }
    }
    return x;
}

// Batches: [start, number of elements, counter]. All shapes in batches of one to three, and a few large batches.
struct Batch { size_t start, n, k; };

inline std::vector<Batch> batches(size_t nshape, size_t skip, bool thorough)
{
    std::vector<Batch> ret;
    size_t k = 0;
    for (size_t start = 0; start < nshape; start += skip * (1 + k % 3), ++k) {
        ret.push_back({start, 1 + k % 3, k});
    }
    std::vector<size_t> large = {5, 8, 16, 33, 65, 130};
    if (thorough) {
        large.insert(large.end(), {4, 7, 31, 32, 64, 100, 128, 257, 515});
    }
    for (size_t n : large) {
        ret.push_back({11 * n, n, k + k % 2 + 1}); // odd: several counters
        ++k;
        ret.push_back({17 * n, n, k + k % 2}); // even
        ++k;
    }
    return ret;
}

template <Kind K>
const std::vector<Shape>& shapes(bool thorough)
{
    if constexpr (K == Kind::hex8) {
        return hexes(thorough);
    }
    else {
        return quads(thorough);
    }
}

// reference values of one element at one integration point
template <Kind K>
struct Ref {
    static constexpr size_t nne = Type<K>::nne, nd = Type<K>::ndim, td = Type<K>::tdim;
    Point p;
    double vol;
    // gradu(i, j) = sum_m sum_c B[m][i][j][c] * u(m, c)
    double B[nne][td][td][nd];

    Ref(const double* x, const double* xi, double w, double thick)
    {
        p = evaluate(nne, nd, x, xi);
        vol = w * p.det;
        std::memset(B, 0, sizeof(B));
        for (size_t m = 0; m < nne; ++m) {
            if (K == Kind::axisym) { // tensor components (r, theta, z), nodal components (z, r)
                if constexpr (td == 3 && nd == 2) {
                    B[m][0][0][1] = p.dN[m][1];
                    B[m][0][2][0] = p.dN[m][1];
                    B[m][1][1][1] = p.N[m] / p.x[1];
                    B[m][2][0][1] = p.dN[m][0];
                    B[m][2][2][0] = p.dN[m][0];
                }
            }
            else {
                for (size_t i = 0; i < nd; ++i) {
                    for (size_t j = 0; j < nd; ++j) {
                        B[m][i][j][j] = p.dN[m][i];
                    }
                }
            }
        }
        if (K == Kind::planar) {
            vol *= thick;
        }
        if (K == Kind::axisym) {
            vol *= 2.0 * std::acos(-1.0) * p.x[1];
        }
    }
};

} // namespace vh

#endif
