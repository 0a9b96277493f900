// Operations that users may run at the same time: reading (const) functions of shared objects, and all operations on objects
// that a thread has for itself. Compiled with instrumented memory accesses, explored by con_check.cpp.
#include "element.h"
#include "linalg.h"
#include "nodesets.h"
#include <memory>

#define API extern "C" __attribute__((visibility("default")))

namespace {

using namespace vh;
namespace M = GooseFEM::Mesh;

struct Out {
    std::vector<double>& v;
    void put(double x) { v.push_back(x); }
    void put(size_t x) { v.push_back(static_cast<double>(x)); }
    template <class A>
    auto put(const A& a) -> decltype(a.begin(), void())
    {
        v.push_back(static_cast<double>(a.size()));
        for (auto& x : a) {
            put(x);
        }
    }
    void put(bool x) { v.push_back(x); }
    void put(int x) { v.push_back(x); }
    void put(const Eigen::SparseMatrix<double>& m)
    {
        v.push_back(static_cast<double>(m.rows()));
        v.push_back(static_cast<double>(m.cols()));
        for (int k = 0; k < m.outerSize(); ++k) {
            for (Eigen::SparseMatrix<double>::InnerIterator i(m, k); i; ++i) {
                v.push_back(static_cast<double>(i.row()));
                v.push_back(static_cast<double>(i.col()));
                v.push_back(i.value());
            }
        }
    }
};

struct Op {
    std::string name;
    std::function<void(Out&)> f;
};

using Ops = std::vector<Op>;

struct Group {
    std::string name;
    std::function<void(Ops&)> make; // fresh shared objects
};

std::vector<Group> groups;
Ops operations;

#define OP(expr) ops.push_back({#expr, [=](Out& out) { out.put(expr); }})
#define DO(label, ...) ops.push_back({label, [=](Out& out) { __VA_ARGS__ }})

template <class T>
void fill(T& a, size_t seed)
{
    Lcg r(seed + a.size());
    for (auto& v : a) {
        v = r.integer(1, 19);
    }
}

template <class T, class... A>
std::shared_ptr<T> shared(A&&... a)
{
    return std::make_shared<T>(std::forward<A>(a)...);
}

// data of a world
struct Data {
    World w;
    A1 d, d2;
    A2 n, n2;
    A3 e, ke, kd;
    S1 iip;
    Eigen::SparseMatrix<double> du, dp, di;
};

std::shared_ptr<const Data> data(const World& w)
{
    auto p = std::make_shared<Data>();
    auto& D = *p;
    D.w = w;
    D.d = A1::from_shape({w.ndof()});
    D.d2 = D.d;
    fill(D.d, 3);
    fill(D.d2, 4);
    D.n = A2::from_shape({w.nnode(), w.ndim()});
    D.n2 = D.n;
    for (size_t i = 0; i < D.n.size(); ++i) {
        D.n.data()[i] = D.d(w.dofs.data()[i]);
        D.n2.data()[i] = D.d2(w.dofs.data()[i]);
    }
    D.e = A3::from_shape({w.nelem(), w.nne(), w.ndim()});
    for (size_t e = 0; e < w.nelem(); ++e) {
        for (size_t m = 0; m < w.nne(); ++m) {
            for (size_t i = 0; i < w.ndim(); ++i) {
                D.e(e, m, i) = D.n(w.conn(e, m), i);
            }
        }
    }
    size_t k = w.nne() * w.ndim();
    D.ke = A3::from_shape({w.nelem(), k, k});
    D.kd = D.ke;
    Lcg g(k);
    for (size_t e = 0; e < w.nelem(); ++e) {
        for (size_t i = 0; i < k; ++i) {
            for (size_t j = 0; j <= i; ++j) {
                double v = i == j ? 64.0 + g.integer(0, 9) : g.integer(-2, 2);
                D.ke(e, i, j) = D.ke(e, j, i) = v;
                D.kd(e, i, j) = D.kd(e, j, i) = i == j ? v : 0.0;
            }
        }
    }
    size_t nd = w.ndof();
    D.iip = S1::from_shape({nd / 2});
    for (size_t i = 0; i < nd / 2; ++i) {
        D.iip(i) = nd - 1 - 2 * i;
    }
    size_t nnd = nd > 1 ? std::max<size_t>(nd / 3, 1) : 0, ni = nd - nnd, nnp = ni / 2, nnu = ni - nnp;
    D.du.resize(nnd, nnu);
    D.dp.resize(nnd, nnp);
    D.di.resize(nnd, ni);
    for (size_t r = 0; r < nnd; ++r) {
        for (size_t i = 0; i < ni; ++i) {
            if ((r + i) % 2 == 0) {
                D.di.insert(r, i) = i + 0.5;
                if (i < nnu) {
                    D.du.insert(r, i) = i + 0.5;
                }
                else {
                    D.dp.insert(r, i - nnu) = i + 0.5;
                }
            }
        }
    }
    D.du.makeCompressed();
    D.dp.makeCompressed();
    D.di.makeCompressed();
    return p;
}

bool regular(const World& w)
{
    std::set<size_t> d;
    for (auto n : w.conn) {
        for (size_t i = 0; i < w.ndim(); ++i) {
            d.insert(w.dofs(n, i));
        }
    }
    return d.size() == w.ndof();
}

template <class V>
void vector(Ops& ops, const std::shared_ptr<const Data>& D, const V& v, const std::string& name)
{
#define V(expr) ops.push_back({name + "." #expr, [=](Out& out) { out.put(v->expr); }})
    V(nelem()); V(nne()); V(nnode()); V(ndim()); V(ndof()); V(conn()); V(dofs());
    V(shape_dofval()); V(shape_nodevec()); V(shape_elemvec()); V(shape_elemmat());
    V(allocate_dofval(1.0)); V(allocate_nodevec(1.0)); V(allocate_elemvec(1.0)); V(allocate_elemmat(1.0));
    V(Copy(D->n, D->n2));
    V(AsDofs(D->n)); V(AsDofs(D->e)); V(AsNode(D->d)); V(AsNode(D->e)); V(AsElement(D->d)); V(AsElement(D->n));
    V(AssembleDofs(D->n)); V(AssembleDofs(D->e)); V(AssembleNode(D->e));
}

template <class A>
void matrix(Ops& ops, const std::shared_ptr<const Data>& D, const A& v, const std::string& name)
{
    V(nelem()); V(nne()); V(nnode()); V(ndim()); V(ndof()); V(conn()); V(dofs());
    V(shape_dofval()); V(shape_nodevec()); V(shape_elemmat());
    V(Todense());
}

// every part alone, and all parts together (one operation per part, that does everything the part offers)
void together(const std::string& name, const std::vector<Group>& parts)
{
    for (auto& p : parts) {
        groups.push_back({name + " " + p.name, p.make});
    }
    groups.push_back({name + " all", [parts](Ops& ops) {
        for (auto& p : parts) {
            auto sub = std::make_shared<Ops>();
            p.make(*sub);
            ops.push_back({p.name, [sub](Out& out) {
                for (auto& o : *sub) {
                    o.f(out);
                }
            }});
        }
    }});
}

void world(const World& w)
{
    std::vector<Group> parts;
    parts.push_back({"Vector", [w](Ops& ops) {
        auto D = data(w);
        auto v = shared<const GooseFEM::Vector>(w.conn, w.dofs);
        vector(ops, D, v, "Vector");
        DO("own vectors", {
            GooseFEM::Vector a(D->w.conn, D->w.dofs);
            out.put(a.AssembleDofs(D->e));
            GooseFEM::VectorPartitioned b(D->w.conn, D->w.dofs, D->iip);
            out.put(b.AssembleDofs(D->e));
            GooseFEM::VectorPartitionedTyings c(D->w.conn, D->w.dofs, D->du, D->dp, D->di);
            out.put(c.AssembleDofs(D->e));
        });
    }});
    parts.push_back({"VectorPartitioned", [w](Ops& ops) {
        auto D = data(w);
        auto v = shared<const GooseFEM::VectorPartitioned>(w.conn, w.dofs, D->iip);
        std::string name = "VectorPartitioned";
        vector(ops, D, v, name);
        V(iiu()); V(iip()); V(nnu()); V(nnp()); V(dofs_is_u()); V(dofs_is_p());
        V(AsDofs_u(D->d)); V(AsDofs_u(D->n)); V(AsDofs_u(D->e)); V(AsDofs_p(D->d)); V(AsDofs_p(D->n)); V(AsDofs_p(D->e));
        V(Copy_u(D->n, D->n2)); V(Copy_p(D->n, D->n2));
        V(DofsFromParitioned(A1(xt::view(D->d, xt::range(0, v->nnu()))), A1(xt::view(D->d2, xt::range(0, v->nnp())))));
        V(NodeFromPartitioned(A1(xt::view(D->d, xt::range(0, v->nnu()))), A1(xt::view(D->d2, xt::range(0, v->nnp())))));
        V(ElementFromPartitioned(A1(xt::view(D->d, xt::range(0, v->nnu()))), A1(xt::view(D->d2, xt::range(0, v->nnp())))));
    }});
    parts.push_back({"VectorPartitionedTyings", [w](Ops& ops) {
        auto D = data(w);
        auto v = shared<const GooseFEM::VectorPartitionedTyings>(w.conn, w.dofs, D->du, D->dp, D->di);
        std::string name = "VectorPartitionedTyings";
        vector(ops, D, v, name);
        V(iiu()); V(iip()); V(iii()); V(iid());
        V(AsDofs_i(D->n));
        ops.push_back({name + ".copy_p", [=](Out& out) {
            A1 b = D->d2;
            v->copy_p(D->d, b);
            out.put(b);
        }});
    }});
    parts.push_back({"Matrix", [w](Ops& ops) {
        auto D = data(w);
        auto a = shared<GooseFEM::Matrix>(w.conn, w.dofs);
        a->assemble(D->ke);
        std::shared_ptr<const GooseFEM::Matrix> v = a;
        std::string name = "Matrix";
        matrix(ops, D, v, name);
        V(data()); V(Dot(D->n)); V(Dot(D->d));
        if (regular(w)) { // an object of one thread
            DO("own Matrix", {
                GooseFEM::Matrix A(D->w.conn, D->w.dofs);
                A.assemble(D->ke);
                GooseFEM::MatrixSolver<> S;
                out.put(S.Solve(A, D->n));
                A2 dense = A.Todense();
                S1 all = xt::arange<size_t>(D->w.ndof());
                A.add(all, all, dense);
                out.put(S.Solve(A, D->d));
                A.set(all, all, dense);
                out.put(S.Solve(A, D->d));
            });
        }
    }});
    parts.push_back({"MatrixPartitioned", [w](Ops& ops) {
        auto D = data(w);
        auto a = shared<GooseFEM::MatrixPartitioned>(w.conn, w.dofs, D->iip);
        a->assemble(D->ke);
        std::shared_ptr<const GooseFEM::MatrixPartitioned> v = a;
        std::string name = "MatrixPartitioned";
        matrix(ops, D, v, name);
        V(data_uu()); V(data_up()); V(data_pu()); V(data_pp()); V(Dot(D->n)); V(Reaction(D->n, D->n2));
        if (regular(w)) {
            V(Dot(D->d)); V(Reaction(D->d, D->d2));
        }
        V(Reaction_p(A1(xt::view(D->d, xt::range(0, v->nnu()))), A1(xt::view(D->d2, xt::range(0, v->nnp())))));
        if (regular(w)) { // an object of one thread
            DO("own MatrixPartitioned", {
                GooseFEM::MatrixPartitioned A(D->w.conn, D->w.dofs, D->iip);
                A.assemble(D->ke);
                GooseFEM::MatrixPartitionedSolver<> S;
                out.put(S.Solve(A, D->n, D->n2));
                out.put(S.Solve(A, D->d, D->d2));
            });
        }
    }});
    parts.push_back({"MatrixPartitionedTyings", [w](Ops& ops) {
        auto D = data(w);
        auto a = shared<GooseFEM::MatrixPartitionedTyings>(w.conn, w.dofs, D->du, D->dp);
        a->assemble(D->ke);
        std::shared_ptr<const GooseFEM::MatrixPartitionedTyings> v = a;
        std::string name = "MatrixPartitionedTyings";
        matrix(ops, D, v, name);
        V(data_uu()); V(data_up()); V(data_pu()); V(data_pp()); V(data_ud()); V(data_pd()); V(data_du()); V(data_dp()); V(data_dd());
        V(iiu()); V(iip()); V(iii()); V(iid());
        if (regular(w)) { // an object of one thread
            DO("own MatrixPartitionedTyings", {
                GooseFEM::MatrixPartitionedTyings A(D->w.conn, D->w.dofs, D->du, D->dp);
                A.assemble(D->ke);
                GooseFEM::MatrixPartitionedTyingsSolver<> S;
                out.put(S.Solve(A, D->n, D->n2));
                out.put(S.Solve(A, D->d, D->d2));
            });
        }
    }});
    parts.push_back({"MatrixDiagonal", [w](Ops& ops) {
        auto D = data(w);
        auto a = shared<GooseFEM::MatrixDiagonal>(w.conn, w.dofs);
        a->assemble(D->kd);
        std::shared_ptr<const GooseFEM::MatrixDiagonal> v = a;
        std::string name = "MatrixDiagonal";
        matrix(ops, D, v, name);
        V(data()); V(Todiagonal()); V(Dot(D->n)); V(Dot(D->d));
        if (regular(w)) { // an object of one thread
            DO("own MatrixDiagonal", {
                GooseFEM::MatrixDiagonal A(D->w.conn, D->w.dofs);
                A.assemble(D->kd);
                out.put(A.Solve(D->n));
                A.set(D->d2);
                out.put(A.Solve(D->d));
            });
        }
    }});
    parts.push_back({"MatrixDiagonalPartitioned", [w](Ops& ops) {
        auto D = data(w);
        auto a = shared<GooseFEM::MatrixDiagonalPartitioned>(w.conn, w.dofs, D->iip);
        a->assemble(D->kd);
        std::shared_ptr<const GooseFEM::MatrixDiagonalPartitioned> v = a;
        std::string name = "MatrixDiagonalPartitioned";
        matrix(ops, D, v, name);
        if (regular(w)) {
            V(data()); V(Todiagonal()); V(Dot(D->d)); V(Reaction(D->d, D->d2));
        }
        V(data_uu()); V(data_pp()); V(Dot(D->n)); V(Reaction(D->n, D->n2));
        V(Dot_u(A1(xt::view(D->d, xt::range(0, v->nnu()))), A1(xt::view(D->d2, xt::range(0, v->nnp())))));
        V(Dot_p(A1(xt::view(D->d, xt::range(0, v->nnu()))), A1(xt::view(D->d2, xt::range(0, v->nnp())))));
        V(Reaction_p(A1(xt::view(D->d, xt::range(0, v->nnu()))), A1(xt::view(D->d2, xt::range(0, v->nnp())))));
        if (regular(w)) { // an object of one thread
            DO("own MatrixDiagonalPartitioned", {
                GooseFEM::MatrixDiagonalPartitioned A(D->w.conn, D->w.dofs, D->iip);
                A.assemble(D->kd);
                A2 x = D->n2;
                A.solve(D->n, x);
                out.put(x);
                A.set(D->d2);
                A1 y = D->d2;
                A.solve(D->d, y);
                out.put(y);
            });
        }
    }});
    together(w.str(), parts);
}

template <Kind K>
void elements(size_t n, size_t k)
{
    using T = Type<K>;
    constexpr size_t nne = T::nne, nd = T::ndim, td = T::tdim;
    groups.push_back({std::string(T::name()) + " " + std::to_string(n) + " elements " + rules(nd)[k].name, [n, k](Ops& ops) {
        struct Input {
            A3 x, z, u, v;
            A2 rho;
            A4 sig;
            xt::xtensor<double, 6> C;
            Rule rule;
        };
        auto p = std::make_shared<Input>();
        auto rule = rules(nd)[k];
        p->x = batch<K>(shapes<K>(false), 5, n, 1.0, false);
        p->z = batch<K>(shapes<K>(false), 36, n, 0.5, false);
        auto make = [rule](const A3& x) { return rule.isdefault ? T::make(x, 0.5) : T::make(x, rule.xi, rule.w, 0.5); };
        auto v = std::make_shared<const typename T::Quad>(make(p->x));
        size_t nq = v->nip();
        p->u = A3::from_shape({n, nne, nd});
        p->v = A3::from_shape({n, nq, nd});
        p->rho = A2::from_shape({n, nq});
        p->sig = A4::from_shape({n, nq, td, td});
        p->C = xt::xtensor<double, 6>::from_shape({n, nq, td, td, td, td});
        fill(p->u, 1);
        fill(p->v, 2);
        fill(p->rho, 3);
        fill(p->sig, 4);
        fill(p->C, 5);
        std::shared_ptr<const Input> I = p;
        std::string name = "Quadrature";
        V(nelem()); V(nne()); V(ndim()); V(tdim()); V(nip());
        V(shape_elemvec()); V(shape_elemvec(1)); V(shape_elemmat()); V(shape_qscalar()); V(shape_qvector()); V(shape_qvector(2));
        V(template shape_qtensor<2>()); V(shape_qtensor(3)); V(template shape_qtensor<2>(2, 2)); V(shape_qtensor(1, 2));
        V(allocate_elemvec(1.0)); V(allocate_elemmat(1.0)); V(template allocate_qtensor<2>(1.0)); V(allocate_qtensor(1, 1.0)); V(allocate_qscalar(1.0));
        V(dV());
        if constexpr (K == Kind::axisym) {
            V(B());
        }
        else {
            V(GradN());
        }
        V(template AsTensor<2>(I->rho)); V(AsTensor(1, I->rho));
        V(InterpQuad_vector(I->u)); V(GradN_vector(I->u)); V(GradN_vector_T(I->u)); V(SymGradN_vector(I->u));
        V(Int_N_vector_dV(I->v)); V(Int_N_scalar_NT_dV(I->rho)); V(Int_gradN_dot_tensor2_dV(I->sig)); V(Int_gradN_dot_tensor4_dot_gradNT_dV(I->C));
        ops.push_back({"own Quadrature", [=](Out& out) {
            auto q = make(I->x);
            out.put(q.dV());
            q.update_x(I->z);
            out.put(q.dV());
            out.put(q.SymGradN_vector(I->u));
            auto c = q;
            c.update_x(I->x);
            out.put(c.Int_gradN_dot_tensor2_dV(I->sig));
        }});
        namespace Q = GooseFEM::Element::Quad4;
        namespace H = GooseFEM::Element::Hex8;
        if constexpr (K == Kind::quad4) {
            OP(Q::Gauss::xi()); OP(Q::Gauss::w()); OP(Q::Nodal::xi()); OP(Q::Nodal::w()); OP(Q::MidPoint::xi()); OP(Q::MidPoint::w());
        }
        if constexpr (K == Kind::hex8) {
            OP(H::Gauss::xi()); OP(H::Gauss::w()); OP(H::Nodal::xi()); OP(H::Nodal::w());
        }
    }});
}

template <class T>
void regularmesh(Ops& ops, const T& v, const std::string& name)
{
    V(nelem()); V(nnode()); V(nne()); V(ndim()); V(nelx()); V(nely()); V(h());
    V(coor()); V(conn()); V(dofs()); V(dofsPeriodic()); V(nodesPeriodic()); V(nodesOrigin());
}

template <class T>
void plane(Ops& ops, const T& v, const std::string& name)
{
    regularmesh(ops, v, name);
#define N(f) V(f());
    NODESETS_2D(N)
}

template <class T>
void solid(Ops& ops, const T& v, const std::string& name, bool thorough)
{
    regularmesh(ops, v, name);
    V(nelz());
    if (thorough) {
        NODESETS_3D(N)
    }
    else {
        V(nodesBottom()); V(nodesTop()); V(nodesLeft()); V(nodesRight()); V(nodesFront()); V(nodesBack());
        V(nodesFrontFace()); V(nodesBackFace()); V(nodesLeftFace()); V(nodesRightFace()); V(nodesBottomFace()); V(nodesTopFace());
        V(nodesFrontBottomEdge()); V(nodesBackRightEdge()); V(nodesTopLeftOpenEdge()); V(nodesRightTopBackCorner());
    }
}

void meshes(bool thorough)
{
    groups.push_back({"regular meshes", [](Ops& ops) {
        plane(ops, shared<const M::Quad4::Regular>(3, 2), "Quad4::Regular");
        plane(ops, shared<const M::Tri3::Regular>(2, 3), "Tri3::Regular");
        DO("own meshes", {
            out.put(M::Quad4::Regular(4, 2, 0.5).coor());
            out.put(M::Tri3::Regular(3, 3, 0.5).conn());
            out.put(M::Quad4::FineLayer(6, 9, 0.5).conn());
        });
    }});
    groups.push_back({"hexahedral meshes", [thorough](Ops& ops) {
        solid(ops, shared<const M::Hex8::Regular>(2, 1, 2), "Hex8::Regular", thorough);
        auto v = shared<const M::Hex8::FineLayer>(3, 9, 3);
        std::string name = "Hex8::FineLayer";
        solid(ops, v, name, thorough);
        V(elementsMiddleLayer());
        DO("own meshes", {
            out.put(M::Hex8::Regular(1, 2, 2, 0.5).coor());
            out.put(M::Hex8::FineLayer(3, 5, 6, 0.5).conn());
        });
    }});
    groups.push_back({"layered mesh", [](Ops& ops) {
        auto v = shared<const M::Quad4::FineLayer>(6, 15);
        std::string name = "Quad4::FineLayer";
        plane(ops, v, name);
        V(elementsMiddleLayer()); V(elementsLayer(0)); V(elementsLayer(2)); V(elemrow_nhx()); V(elemrow_nhy()); V(elemrow_type()); V(elemrow_nelem());
        V(elementgrid_ravel(std::vector<size_t>{0, 3}, std::vector<size_t>{0, 6}));
        // not const, but without effect on the mesh: on an object of the thread
        DO("own FineLayer", {
            M::Quad4::FineLayer m(6, 9);
            out.put(m.roll(1));
            size_t c = m.elementsMiddleLayer()(2);
            out.put(m.elementgrid_around_ravel(c, 1));
            out.put(m.elementgrid_leftright(c, 1, 1));
        });
        DO("own FineLayer from coordinates", {
            M::Quad4::FineLayer m(6, 9);
            M::Quad4::FineLayer r(m.coor(), m.conn());
            out.put(r.coor());
        });
    }});
    groups.push_back({"maps", [](Ops& ops) {
        {
            auto v = shared<const M::Quad4::Map::RefineRegular>(M::Quad4::Regular(2, 2), 2, 3);
            std::string name = "RefineRegular";
            auto x = shared<A1>(A1::from_shape({24}));
            fill(*x, 1);
            auto c = shared<A1>(A1::from_shape({4}));
            fill(*c, 2);
            V(nx()); V(ny()); V(coarseMesh().coor()); V(fineMesh().coor()); V(map());
            V(meanToCoarse(*x)); V(averageToCoarse(*x, *x)); V(mapToFine(*c));
        }
        {
            auto v = shared<const M::Quad4::Map::FineLayer2Regular>(M::Quad4::FineLayer(6, 15));
            std::string name = "FineLayer2Regular";
            auto x = shared<A1>(A1::from_shape({v->fineLayerMesh().nelem()}));
            fill(*x, 1);
            V(regularMesh().coor()); V(fineLayerMesh().coor()); V(map()); V(mapFraction()); V(mapToRegular(*x));
        }
        DO("own maps", {
            M::Quad4::Map::RefineRegular r(M::Quad4::Regular(2, 1), 2, 2);
            out.put(r.map());
            M::Quad4::Map::FineLayer2Regular f(M::Quad4::FineLayer(3, 7));
            out.put(f.map());
        });
    }});
    groups.push_back({"stitching", [](Ops& ops) {
        auto m = shared<const M::Quad4::Regular>(2, 2);
        struct In {
            A2 a, b, c;
            S2 conn;
            S1 top, bottom;
        };
        auto p = std::make_shared<In>();
        p->a = m->coor();
        p->b = p->a;
        p->c = p->a;
        for (size_t i = 0; i < p->a.shape(0); ++i) {
            p->b(i, 1) += 2.0;
            p->c(i, 0) += 2.0;
        }
        p->conn = m->conn();
        p->top = m->nodesTopEdge();
        p->bottom = m->nodesBottomEdge();
        std::shared_ptr<const In> I = p;
        std::vector<size_t> el{0, 3};
        {
            auto v = shared<const M::ManualStitch>(I->a, I->conn, I->top, I->b, I->conn, I->bottom);
            std::string name = "ManualStitch";
            V(nmesh()); V(nelem()); V(nnode()); V(nne()); V(ndim()); V(coor()); V(conn()); V(dofs()); V(nodemap()); V(elemmap());
            V(nodemap(0)); V(nodemap(1)); V(elemmap(1));
            V(nodeset(I->top, 0)); V(elemset(S1(xt::arange<size_t>(2)), 1));
        }
        {
            auto s = shared<M::Stitch>();
            s->push_back(I->a, I->conn);
            s->push_back(I->b, I->conn);
            s->push_back(I->c, I->conn);
            std::shared_ptr<const M::Stitch> v = s;
            std::string name = "Stitch";
            V(nmesh()); V(nelem()); V(nnode()); V(nne()); V(ndim()); V(coor()); V(conn()); V(dofs()); V(nodemap()); V(elemmap());
            V(nodemap(2)); V(elemmap(1)); V(nodeset(I->top, 1)); V(elemset(S1(xt::arange<size_t>(2)), 2));
            V(nodeset(std::vector<S1>{I->top, I->bottom, I->top})); V(elemset(std::vector<S1>{S1{0, 3}, S1{2}, S1{1}}));
        }
        {
            auto s = shared<M::Vstack>();
            s->push_back(I->a, I->conn, I->bottom, I->top);
            s->push_back(I->a, I->conn, I->bottom, I->top);
            std::shared_ptr<const M::Vstack> v = s;
            std::string name = "Vstack";
            V(nmesh()); V(nelem()); V(nnode()); V(coor()); V(conn()); V(dofs()); V(nodemap()); V(elemmap());
            V(nodemap(1)); V(elemmap(1)); V(nodeset(I->top, 1)); V(elemset(S1(xt::arange<size_t>(2)), 1));
        }
        OP(M::overlapping(I->a, I->b));
        DO("own stitches", {
            M::Stitch s;
            s.push_back(I->b, I->conn);
            s.push_back(I->a, I->conn);
            out.put(s.coor());
            out.put(s.conn());
            M::Vstack v;
            v.push_back(I->b, I->conn, I->bottom, I->top);
            v.push_back(I->a, I->conn, I->bottom, I->top);
            out.put(v.coor());
            out.put(v.conn());
        });
    }});
    groups.push_back({"numbering and free functions", [](Ops& ops) {
        auto m = shared<const M::Quad4::Regular>(2, 2);
        struct In {
            A2 coor, w;
            S2 conn, dofs, holes, per;
            S1 perm;
            A3 u;
            xt::xtensor<double, 1> mass;
            Eigen::SparseMatrix<double> sp;
        };
        auto p = std::make_shared<In>();
        p->coor = m->coor();
        p->conn = m->conn();
        p->dofs = m->dofs();
        p->per = m->nodesPeriodic();
        p->holes = p->dofs;
        for (auto& h : p->holes) {
            h = (h * 7 + 3) % 31 * 2;
        }
        p->perm = S1{2, 0, 3, 1};
        p->u = GooseFEM::Element::asElementVector(p->conn, p->coor);
        std::shared_ptr<const In> I = p;
        {
            auto v = shared<const M::Renumber>(I->holes);
            std::string name = "Renumber";
            V(apply(I->holes));
            auto q = shared<const M::Renumber>(I->dofs);
            OP(q->index());
        }
        OP(M::renumber(I->holes)); OP(M::dofs(5, 2)); OP(M::coordination(I->conn)); OP(M::elem2node(I->conn)); OP(M::elem2node(I->conn, I->holes));
        OP(M::node2dof(I->dofs)); OP(M::elem2node(I->conn, M::dofs(9, 1)));
        OP(M::edgesize(I->coor, I->conn)); OP(M::edgesize(I->coor, I->conn, M::ElementType::Quad4));
        OP(M::centers(I->coor, I->conn)); OP(M::elemmap2nodemap(I->perm, I->coor, I->conn));
        OP(M::center_of_gravity(I->coor, I->conn)); OP(M::nodal_mass(I->coor, I->conn, M::ElementType::Quad4));
        OP(GooseFEM::Element::asElementVector(I->conn, I->coor)); OP(GooseFEM::Element::assembleNodeVector(I->conn, I->u));
        OP(GooseFEM::Element::isSequential(I->dofs)); OP(GooseFEM::as3d(I->coor));
        OP(GooseFEM::is_unique(I->dofs)); OP(GooseFEM::is_unique(I->conn));
        {
            auto v = shared<const GooseFEM::Tyings::Control>(I->coor, I->dofs);
            std::string name = "Control";
            V(coor()); V(dofs()); V(controlDofs()); V(controlNodes());
        }
        {
            GooseFEM::Tyings::Control c(I->coor, I->dofs);
            auto v = shared<const GooseFEM::Tyings::Periodic>(c.coor(), c.dofs(), c.controlDofs(), I->per, S1{0, 1});
            std::string name = "Periodic";
            V(nnd()); V(nni()); V(nnu()); V(nnp()); V(dofs()); V(control()); V(nodal_tyings()); V(iid()); V(iii()); V(iiu()); V(iip());
            V(Cdi()); V(Cdu()); V(Cdp());
        }
        {
            auto s = shared<GooseFEM::Iterate::StopList>(3);
            s->roll_insert(3.0);
            s->roll_insert(2.0);
            s->roll_insert(1.0);
            std::shared_ptr<const GooseFEM::Iterate::StopList> v = s;
            std::string name = "StopList";
            V(descending()); V(all_less(2.5)); V(data());
        }
        DO("own tools", {
            M::Renumber r(I->dofs);
            out.put(r.index());
            M::Reorder o({S1(xt::arange<size_t>(4)), S1(xt::arange<size_t>(4, 8))});
            out.put(o.index());
            GooseFEM::Iterate::StopList s(2);
            s.roll_insert(1.0);
            s.roll_insert(0.5);
            out.put(s.descending());
            GooseFEM::Tyings::Control c(I->coor, I->dofs);
            GooseFEM::Tyings::Periodic t(c.coor(), c.dofs(), c.controlDofs(), I->per);
            out.put(t.dofs());
        });
    }});
}

void build(bool thorough)
{
    if (!groups.empty()) {
        return;
    }
    meshes(thorough);
    for (size_t n = 1; n <= (thorough ? 3 : 2); ++n) {
        for (size_t k = 0; k < 5; ++k) {
            if (k < rules(2).size()) {
                elements<Kind::quad4>(n, k);
                elements<Kind::planar>(n, k);
                elements<Kind::axisym>(n, k);
            }
            if (k < rules(3).size()) {
                elements<Kind::hex8>(n, k);
            }
        }
    }
    size_t count = 0;
    worlds(false, [&](const World& w) {
        size_t i = count++;
        if (!w.name.empty()) {
            if (w.dofs.size() <= (thorough ? 36 : 18) && (thorough || i % 3 == 0)) {
                world(w);
            }
        }
        else if (w.ndof() > 1 && i % (thorough ? 41 : 401) == 0) {
            world(w);
        }
    }, 0);
}

} // namespace

API size_t con_size(int thorough)
{
    build(thorough != 0);
    return groups.size();
}

API const char* con_name(size_t i)
{
    return groups[i].name.c_str();
}

// fresh shared objects: number of operations
API size_t con_open(size_t i)
{
    operations.clear();
    groups[i].make(operations);
    return operations.size();
}

API const char* con_op(size_t k)
{
    return operations[k].name.c_str();
}

API void con_run(size_t k, std::vector<double>* out)
{
    Out o{*out};
    operations[k].f(o);
}
