// All functions of the library on a bounded set of systems. Compiled twice: without OpenMP (the reference) and with OpenMP
// and instrumented memory accesses (explored by omp_check.cpp).
#include "element.h"
#include "linalg.h"
#include <memory>

#define API extern "C" __attribute__((visibility("default")))

namespace {

using namespace vh;

struct Out {
    std::vector<double>& v;
    template <class A>
    void put(const A& a)
    {
        v.push_back(static_cast<double>(a.size()));
        for (auto x : a) {
            v.push_back(static_cast<double>(x));
        }
    }
    void sparse(const Eigen::SparseMatrix<double>& m)
    {
        Eigen::MatrixXd d(m);
        v.push_back(static_cast<double>(d.rows()));
        v.insert(v.end(), d.data(), d.data() + d.size());
    }
    void eigen(const Eigen::VectorXd& d)
    {
        v.push_back(static_cast<double>(d.size()));
        v.insert(v.end(), d.data(), d.data() + d.size());
    }
};

struct Case {
    std::string name;
    std::function<void(Out&)> f;
};

std::vector<Case> cases;

template <class T>
void fill(T& a, size_t seed)
{
    Lcg r(seed + a.size());
    for (auto& v : a) {
        v = r.integer(1, 19);
    }
}

const double dirty = -5.5e200;

// consistent data: equal DOFs hold equal values
A1 dofval(const World& w, size_t seed)
{
    A1 r = A1::from_shape({w.ndof()});
    fill(r, seed);
    return r;
}

A2 nodevec(const World& w, size_t seed)
{
    A1 d = dofval(w, seed);
    A2 r = A2::from_shape({w.nnode(), w.ndim()});
    for (size_t i = 0; i < r.size(); ++i) {
        r.data()[i] = d(w.dofs.data()[i]);
    }
    return r;
}

A3 elemvec(const World& w, size_t seed)
{
    A2 n = nodevec(w, seed);
    A3 r = A3::from_shape({w.nelem(), w.nne(), w.ndim()});
    for (size_t e = 0; e < w.nelem(); ++e) {
        for (size_t m = 0; m < w.nne(); ++m) {
            for (size_t i = 0; i < w.ndim(); ++i) {
                r(e, m, i) = n(w.conn(e, m), i);
            }
        }
    }
    return r;
}

// symmetric, diagonally dominant
A3 stiffness(const World& w, size_t seed)
{
    size_t n = w.nne() * w.ndim();
    A3 r = A3::from_shape({w.nelem(), n, n});
    Lcg g(seed);
    for (size_t e = 0; e < w.nelem(); ++e) {
        for (size_t i = 0; i < n; ++i) {
            for (size_t j = 0; j <= i; ++j) {
                double v = i == j ? 64.0 + g.integer(0, 9) : g.integer(-2, 2);
                r(e, i, j) = v;
                r(e, j, i) = v;
            }
        }
    }
    return r;
}

A3 diagonal(const World& w, size_t seed)
{
    A3 r = stiffness(w, seed);
    for (size_t e = 0; e < w.nelem(); ++e) {
        for (size_t i = 0; i < r.shape(1); ++i) {
            for (size_t j = 0; j < r.shape(1); ++j) {
                if (i != j) {
                    r(e, i, j) = 0.0;
                }
            }
        }
    }
    return r;
}

template <class V>
void conversions(Out& o, const V& v, const World& w)
{
    A1 d = dofval(w, 3);
    A2 n = nodevec(w, 3);
    A3 e = elemvec(w, 3);
    o.put(v.AsDofs(n));
    o.put(v.AsDofs(e));
    o.put(v.AsNode(d));
    o.put(v.AsNode(e));
    o.put(v.AsElement(d));
    o.put(v.AsElement(n));
    fill(e, 5); // assembling does not require consistent data
    fill(n, 6);
    o.put(v.AssembleDofs(e));
    o.put(v.AssembleDofs(n));
    o.put(v.AssembleNode(e));
    A2 src = n, dst = n;
    dst.fill(dirty);
    o.put(v.Copy(src, dst));
}

void vec(const World& w)
{
    cases.push_back({"Vector " + w.str(), [w](Out& o) {
        GooseFEM::Vector v(w.conn, w.dofs);
        conversions(o, v, w);
    }});
}

std::vector<S1> prescribed_sets(const World& w)
{
    auto p = present(w);
    std::vector<S1> r;
    for (size_t k = 0; k < 3; ++k) {
        std::vector<size_t> s;
        for (size_t i = 0; i < p.size(); ++i) {
            if ((k == 1 && i % 2 == 1) || (k == 2 && i < (p.size() + 1) / 2)) {
                s.push_back(p[k == 2 ? p.size() / 2 - i + (p.size() + 1) / 2 - 1 : i]);
            }
        }
        S1 a = S1::from_shape({s.size()});
        std::copy(s.begin(), s.end(), a.begin());
        r.push_back(a);
    }
    return r;
}

// every DOF is part of an element: assembled matrices are regular
static bool regular(const World& w)
{
    std::set<size_t> d;
    for (auto n : w.conn) {
        for (size_t i = 0; i < w.ndim(); ++i) {
            d.insert(w.dofs(n, i));
        }
    }
    return d.size() == w.ndof();
}

A1 take(const A1& d, const S1& i)
{
    A1 r = A1::from_shape({i.size()});
    for (size_t k = 0; k < i.size(); ++k) {
        r(k) = d(i(k));
    }
    return r;
}

void vpart(const World& w, const S1& iip, const std::string& name)
{
    cases.push_back({"VectorPartitioned " + name, [w, iip](Out& o) {
        GooseFEM::VectorPartitioned v(w.conn, w.dofs, iip);
        conversions(o, v, w);
        A1 d = dofval(w, 4);
        A2 n = nodevec(w, 4), a = nodevec(w, 7);
        A3 e = elemvec(w, 4);
        o.put(v.iiu());
        o.put(v.iip());
        o.put(v.dofs_is_u());
        o.put(v.dofs_is_p());
        o.put(v.AsDofs_u(d));
        o.put(v.AsDofs_u(n));
        o.put(v.AsDofs_u(e));
        o.put(v.AsDofs_p(d));
        o.put(v.AsDofs_p(n));
        o.put(v.AsDofs_p(e));
        A1 u = v.AsDofs_u(d), p = v.AsDofs_p(d);
        A1 z = take(v.DofsFromParitioned(u, p), v.iiu());
        o.put(z);
        o.put(v.NodeFromPartitioned(u, p));
        o.put(v.ElementFromPartitioned(u, p));
        o.put(v.Copy_u(n, a));
        o.put(v.Copy_p(n, a));
    }});
}

struct Ties {
    size_t nnu, nnp, nnd;
    Eigen::SparseMatrix<double> du, dp, di;
};

Ties ties(size_t n, size_t k)
{
    Ties t;
    t.nnd = std::min<size_t>(n / 3 + k % 2, n - 1);
    size_t ni = n - t.nnd;
    t.nnp = k == 0 ? 1 : k == 1 ? ni / 2 : 0;
    t.nnp = std::min(t.nnp, ni - 1);
    t.nnu = ni - t.nnp;
    t.du.resize(t.nnd, t.nnu);
    t.dp.resize(t.nnd, t.nnp);
    t.di.resize(t.nnd, ni);
    for (size_t d = 0; d < t.nnd; ++d) {
        for (size_t i = 0; i < ni; ++i) {
            if ((d + i + k) % 3 == 0) {
                double c = (d + i) % 2 ? -0.5 : 1.0;
                t.di.insert(d, i) = c;
                if (i < t.nnu) {
                    t.du.insert(d, i) = c;
                }
                else {
                    t.dp.insert(d, i - t.nnu) = c;
                }
            }
        }
    }
    return t;
}

void tied(const World& w, size_t k)
{
    cases.push_back({"VectorPartitionedTyings " + w.str() + " ties " + std::to_string(k), [w, k](Out& o) {
        Ties t = ties(w.ndof(), k);
        GooseFEM::VectorPartitionedTyings v(w.conn, w.dofs, t.du, t.dp, t.di);
        conversions(o, v, w);
        A1 d = dofval(w, 4), b = dofval(w, 5);
        A2 n = nodevec(w, 4);
        o.put(v.AsDofs_i(n));
        A1 r = v.AsDofs_i(n);
        r.fill(dirty);
        v.asDofs_i(n, r, false);
        o.put(r);
        v.copy_p(d, b);
        o.put(b);
    }});
    cases.push_back({"MatrixPartitionedTyings " + w.str() + " ties " + std::to_string(k), [w, k](Out& o) {
        Ties t = ties(w.ndof(), k);
        GooseFEM::MatrixPartitionedTyings A(w.conn, w.dofs, t.du, t.dp);
        A.assemble(stiffness(w, k + 1));
        o.put(A.Todense());
        GooseFEM::MatrixPartitionedTyingsSolver<> S;
        A2 n = nodevec(w, 4), x = nodevec(w, 5);
        A1 d = dofval(w, 4), y = dofval(w, 5);
        o.put(S.Solve(A, n, x));
        o.put(S.Solve(A, d, y));
    }});
}

void matrix(const World& w)
{
    cases.push_back({"Matrix " + w.str(), [w](Out& o) {
        GooseFEM::Matrix A(w.conn, w.dofs);
        A.assemble(stiffness(w, 1));
        A2 n = nodevec(w, 2), D = A.Todense();
        A1 d = dofval(w, 2), y = d;
        o.put(D);
        o.put(A.Dot(n));
        o.put(A.Dot(d));
        if (regular(w)) {
            GooseFEM::MatrixSolver<> S;
            o.put(S.Solve(A, n));
            o.put(S.Solve(A, d));
            S1 all = xt::arange<size_t>(w.ndof());
            A.set(all, all, D);
            A.add(all, all, D);
            o.put(A.Todense());
            o.put(S.Solve(A, n));
        }
    }});
    cases.push_back({"MatrixDiagonal " + w.str(), [w](Out& o) {
        GooseFEM::MatrixDiagonal A(w.conn, w.dofs);
        A1 a = dofval(w, 9);
        A2 n = nodevec(w, 2);
        A1 d = dofval(w, 2);
        A.set(a);
        o.put(A.Dot(n));
        o.put(A.Dot(d));
        o.put(A.Solve(n));
        o.put(A.Solve(d));
        o.put(A.data());
        A.assemble(diagonal(w, 3));
        o.put(A.Todiagonal());
        o.put(A.Todense());
        o.put(A.Dot(n));
        o.put(A.Dot(d));
        A2 x = n;
        A.solve(n, x);
        o.put(x);
    }});
}

void mpart(const World& w, const S1& iip, const std::string& name)
{
    bool complete = regular(w);
    cases.push_back({"MatrixPartitioned " + name, [w, iip, complete](Out& o) {
        GooseFEM::MatrixPartitioned A(w.conn, w.dofs, iip);
        A.assemble(stiffness(w, 1));
        A2 n = nodevec(w, 2), f = nodevec(w, 3), D = A.Todense();
        A1 d = dofval(w, 2), g = dofval(w, 3), xp = take(d, iip), bu;
        o.put(D);
        o.put(A.Dot(n));
        o.put(A.Reaction(n, f));
        if (complete) {
            o.put(A.Dot(d));
            o.put(A.Reaction(d, g));
        }
        A1 xu = take(d, A.iiu());
        o.put(A.Reaction_p(xu, xp));
        if (A.nnu() > 0 && complete) {
            GooseFEM::MatrixPartitionedSolver<> S;
            o.put(S.Solve(A, n, f));
            o.put(S.Solve(A, d, g));
            o.put(S.Solve_u(A, xu, xp));
        }
    }});
    cases.push_back({"MatrixDiagonalPartitioned " + name, [w, iip](Out& o) {
        GooseFEM::MatrixDiagonalPartitioned A(w.conn, w.dofs, iip);
        A2 n = nodevec(w, 2), f = nodevec(w, 3), x = f;
        A1 d = dofval(w, 2), g = dofval(w, 3), y = g;
        A1 xp = take(d, iip), xu = take(d, A.iiu());
        A.set(dofval(w, 9));
        for (int pass = 0; pass < 2; ++pass) {
            o.put(take(A.data(), A.iiu()));
            o.put(A.data_uu());
            o.put(A.data_pp());
            A2 D = A.Todense();
            o.put(D);
            o.put(A.Dot(n));
            o.put(take(A.Dot(d), A.iiu()));
            o.put(A.Dot_u(xu, xp));
            o.put(A.Dot_p(xu, xp));
            o.put(A.Reaction(n, f));
            o.put(A.Reaction(d, g));
            o.put(A.Reaction_p(xu, xp));
            A.solve(n, x);
            A.solve(d, y);
            o.put(x);
            o.put(y);
            o.put(A.Solve_u(xu, xp));
            A.assemble(diagonal(w, 3));
        }
    }});
}

template <Kind K>
void elements(bool thorough)
{
    using T = Type<K>;
    constexpr size_t nne = T::nne, nd = T::ndim, td = T::tdim;
    auto R = rules(nd);
    for (size_t n = 1; n <= (thorough ? 6 : 4); ++n) {
        for (size_t k = 0; k < R.size(); ++k) {
            for (size_t start : {size_t(5), size_t(400)}) {
                cases.push_back({std::string(T::name()) + " " + std::to_string(n) + " elements from " + std::to_string(start) + " " + R[k].name,
                                 [n, k, start](Out& o) {
                    A3 x = batch<K>(shapes<K>(false), start, n, 1.0, false);
                    A3 z = batch<K>(shapes<K>(false), start + 31, n, 0.5, false);
                    auto rule = rules(nd)[k];
                    auto quad = rule.isdefault ? T::make(z, 0.5) : T::make(z, rule.xi, rule.w, 0.5);
                    quad.update_x(x);
                    size_t nq = quad.nip();
                    o.put(quad.dV());
                    if constexpr (K == Kind::axisym) {
                        o.put(quad.B());
                    }
                    else {
                        o.put(quad.GradN());
                    }
                    A3 u = A3::from_shape({n, nne, nd});
                    fill(u, 1);
                    o.put(quad.InterpQuad_vector(u));
                    o.put(quad.GradN_vector(u));
                    o.put(quad.GradN_vector_T(u));
                    o.put(quad.SymGradN_vector(u));
                    A3 v = A3::from_shape({n, nq, nd});
                    fill(v, 2);
                    o.put(quad.Int_N_vector_dV(v));
                    A2 rho = A2::from_shape({n, nq});
                    fill(rho, 3);
                    o.put(quad.Int_N_scalar_NT_dV(rho));
                    A4 sig = A4::from_shape({n, nq, td, td});
                    fill(sig, 4);
                    o.put(quad.Int_gradN_dot_tensor2_dV(sig));
                    auto C = xt::xtensor<double, 6>::from_shape({n, nq, td, td, td, td});
                    fill(C, 5);
                    o.put(quad.Int_gradN_dot_tensor4_dot_gradNT_dV(C));
                    o.put(quad.template AsTensor<2>(rho));
                    o.put(quad.AsTensor(1, rho));
                    // caller-supplied results that contain other values
                    A3 f = u;
                    quad.int_gradN_dot_tensor2_dV(sig, f);
                    o.put(f);
                    quad.int_N_vector_dV(v, f);
                    o.put(f);
                    A4 g = sig;
                    quad.symGradN_vector(u, g);
                    o.put(g);
                    quad.gradN_vector(u, g);
                    o.put(g);
                    quad.gradN_vector_T(u, g);
                    o.put(g);
                    quad.interpQuad_vector(u, v);
                    o.put(v);
                }});
            }
        }
    }
}

template <class M>
void mesh(const std::string& name, const M& m, GooseFEM::Mesh::ElementType type = GooseFEM::Mesh::ElementType::Quad4)
{
    A2 coor = m.coor();
    S2 conn = m.conn();
    cases.push_back({"mesh " + name, [coor, conn, type](Out& o) {
        namespace G = GooseFEM::Mesh;
        if (type == G::ElementType::Quad4) { // the only one implemented
            o.put(G::edgesize(coor, conn, type));
            o.put(G::centers(coor, conn, type));
        }
        o.put(G::coordination(conn));
        for (auto& l : G::elem2node(conn)) {
            o.put(l);
        }
        S2 d = G::dofs(coor.shape(0), coor.shape(1));
        o.put(d);
        S2 h = d;
        for (auto& v : h) {
            v = (v * 7 + 3) % 31 * 2;
        }
        o.put(G::renumber(h));
        o.put(G::Renumber(h).apply(h));
        S1 a = S1::from_shape({2}), b = S1::from_shape({2});
        a(0) = 0;
        a(1) = 1;
        b(0) = coor.shape(0) - 1;
        b(1) = coor.shape(0) - 2;
        G::ManualStitch st(coor, conn, a, coor, conn, a);
        o.put(st.coor());
        o.put(st.conn());
        G::Stitch s;
        s.push_back(coor, conn);
        s.push_back(A2(coor + 1.0), conn);
        o.put(s.coor());
        o.put(s.conn());
        for (size_t i = 0; i < 2; ++i) {
            o.put(s.nodemap(i));
            o.put(s.elemmap(i));
        }
        o.put(GooseFEM::Element::asElementVector(conn, coor));
        o.put(GooseFEM::Element::assembleNodeVector(conn, GooseFEM::Element::asElementVector(conn, coor)));
        if (coor.shape(1) == 2) {
            o.put(GooseFEM::as3d(coor));
        }
    }});
}

void build(bool thorough)
{
    if (!cases.empty()) {
        return;
    }
    size_t count = 0;
    auto world = [&](const World& w) {
        std::string base = w.str();
        vec(w);
        if (w.ndof() <= 200) {
            matrix(w);
        }
        size_t k = 0;
        for (auto& iip : prescribed_sets(w)) {
            if (iip.size() == 0 && k > 0) {
                continue;
            }
            vpart(w, iip, base + " iip=" + str(iip));
            if (w.ndof() <= 200) {
                mpart(w, iip, base + " iip=" + str(iip));
            }
            ++k;
        }
        if (regular(w) && w.ndof() > 1 && w.ndof() <= 100) {
            for (size_t t = 0; t < 3; ++t) {
                tied(w, t);
            }
        }
    };
    worlds(false, [&](const World& w) {
        size_t i = count++;
        if (!w.name.empty()) {
            if (w.dofs.size() <= (thorough ? 2000 : 120)) {
                world(w);
            }
        }
        else if (i % (thorough ? 1 : 7) == 0) {
            world(w);
        }
    }, 0);
    elements<Kind::quad4>(thorough);
    elements<Kind::planar>(thorough);
    elements<Kind::axisym>(thorough);
    elements<Kind::hex8>(thorough);
    namespace G = GooseFEM::Mesh;
    mesh("Quad4(1,1)", G::Quad4::Regular(1, 1));
    mesh("Quad4(3,2)", G::Quad4::Regular(3, 2));
    mesh("Tri3(2,3)", G::Tri3::Regular(2, 3), G::ElementType::Tri3);
    mesh("Hex8(2,1,2)", G::Hex8::Regular(2, 1, 2), G::ElementType::Hex8);
    mesh("Quad4FineLayer(3,5)", G::Quad4::FineLayer(3, 5));
}

} // namespace

API size_t suite_size(int thorough)
{
    build(thorough != 0);
    return cases.size();
}

API const char* suite_name(size_t i)
{
    return cases[i].name.c_str();
}

API void suite_run(size_t i, std::vector<double>* out)
{
    out->clear();
    Out o{*out};
    cases[i].f(o);
}
