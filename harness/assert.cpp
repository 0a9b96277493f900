// F01: every call with arrays of all shapes around the valid ones, every construction with every entry out of range.
#include "linalg.h"
#include "element.h"
#include <GooseFEM/TyingsPeriodic.h>
using namespace vh;

using Shp = std::vector<size_t>;
using Args = std::vector<XA>;

// Presents an array of dynamic rank as one of fixed rank; what was written is copied back, also after an exception.
template <size_t N>
struct R {
    XA& src;
    xt::xtensor<double, N> v;
    explicit R(XA& s) : src(s), v(s) {}
    ~R() { src = v; }
    operator xt::xtensor<double, N>&() { return v; }
};

struct Op {
    std::string name;
    std::vector<Shp> shapes; // valid shapes
    std::function<void(Args&)> call;
    bool rank = false; // also arrays of another rank
    std::function<bool(const std::vector<Shp>&)> valid; // default: exactly "shapes"
};

static Shp shape_of(const XA& a)
{
    return Shp(a.shape().begin(), a.shape().end());
}

static std::vector<Shp> variants(const Shp& s, bool rank)
{
    std::vector<Shp> r = {s};
    for (size_t i = 0; i < s.size(); ++i) {
        for (int d : {+1, -1}) {
            Shp t = s;
            if (d < 0 && t[i] == 0) {
                continue;
            }
            t[i] = static_cast<size_t>(static_cast<int>(t[i]) + d);
            r.push_back(t);
        }
        // two extents exchanged
        for (size_t j = i + 1; j < s.size(); ++j) {
            Shp t = s;
            std::swap(t[i], t[j]);
            if (t != s) {
                r.push_back(t);
            }
        }
    }
    if (rank) {
        Shp t = s;
        t.push_back(1);
        r.push_back(t);
        t = s;
        t.pop_back();
        if (!t.empty()) {
            r.push_back(t);
        }
        size_t n = 1;
        for (auto i : s) {
            n *= i;
        }
        if (s.size() > 1) {
            r.push_back({n}); // same number of entries
        }
    }
    std::vector<Shp> u;
    for (auto& t : r) {
        if (std::find(u.begin(), u.end(), t) == u.end()) {
            u.push_back(t);
        }
    }
    return u;
}

static XA filled(const Shp& s, size_t k, bool mat)
{
    XA a = XA::from_shape(s);
    Lcg g(k + 11);
    if (mat && s.size() == 3) {
        for (size_t e = 0; e < s[0]; ++e) {
            for (size_t i = 0; i < s[1]; ++i) {
                for (size_t j = 0; j < s[2]; ++j) {
                    a(e, i, j) = i == j ? 10.0 + g.integer(0, 5) : 0.0;
                }
            }
        }
        return a;
    }
    for (auto& v : a) {
        v = g.integer(1, 50);
    }
    return a;
}

static std::string sstr(const std::vector<Shp>& s)
{
    std::string r;
    for (auto& i : s) {
        r += (r.empty() ? "" : " ") + vh::str(i);
    }
    return r;
}

using Observe = std::function<std::vector<double>()>;

static bool same(const std::vector<double>& a, const std::vector<double>& b)
{
    return a.size() == b.size() && (a.empty() || std::memcmp(a.data(), b.data(), a.size() * sizeof(double)) == 0);
}

static bool same(const XA& a, const XA& b)
{
    return shape_of(a) == shape_of(b) && (a.size() == 0 || std::memcmp(a.data(), b.data(), a.size() * sizeof(double)) == 0);
}

static void explore(Explorer& X, const Op& op, const Observe& observe)
{
    std::vector<std::vector<Shp>> var;
    for (auto& s : op.shapes) {
        var.push_back(variants(s, op.rank));
    }
    std::vector<size_t> c(var.size(), 0);
    bool mat = op.name.find("assemble(elemmat") != std::string::npos;
    auto once = [&]() {
        std::vector<Shp> shp;
        Args a;
        for (size_t i = 0; i < var.size(); ++i) {
            shp.push_back(var[i][c[i]]);
            a.push_back(filled(shp.back(), i, mat));
        }
        bool valid = op.valid ? op.valid(shp) : shp == op.shapes;
        Args before = a;
        std::vector<double> o = observe();
        bool thrown = false;
        std::string what;
        try {
            op.call(a);
        }
        catch (const std::exception& e) {
            thrown = true;
            what = e.what();
        }
        ++X.transitions;
        X.check(thrown == !valid, op.name, valid ? " rejects consistent arrays of shape " : " accepts arrays of shape ", sstr(shp), valid ? ": " : ", expected ",
                valid ? what : sstr(op.shapes));
        if (thrown) {
            X.counts["rejected"]++;
            for (size_t i = 0; i < a.size(); ++i) {
                X.check(same(a[i], before[i]), op.name, " with arrays of shape ", sstr(shp), " throws but modified argument ", i);
            }
            X.check(same(observe(), o), op.name, " with arrays of shape ", sstr(shp), " throws but modified the object");
        }
        else {
            X.counts["accepted"]++;
        }
        X.observe(thrown);
    };
    while (true) {
        once();
        size_t i = 0;
        for (; i < c.size(); ++i) {
            if (++c[i] < var[i].size()) {
                break;
            }
            c[i] = 0;
        }
        if (i == c.size()) {
            break;
        }
    }
    once(); // still usable
}

template <class F>
static bool throws(F&& f)
{
    try {
        f();
    }
    catch (const std::exception&) {
        return true;
    }
    return false;
}

static std::vector<double> vec(const A2& a)
{
    return std::vector<double>(a.begin(), a.end());
}

static std::vector<double> vec(const A1& a)
{
    return std::vector<double>(a.begin(), a.end());
}

// ---------------------------------------------------------------------------------------------------------------

struct Sys {
    World w;
    std::vector<size_t> iip;
    std::string str() const { return w.str() + " iip=" + vh::str(iip); }
};

// also numbers of nodes, elements, and DOFs that all differ from each other
static std::vector<Sys> systems(bool thorough)
{
    std::vector<Sys> r;
    struct S { size_t nnode, ndim, nelem, nne; };
    std::vector<S> sh = {{1, 1, 1, 1}, {3, 1, 2, 2}, {3, 2, 1, 3}, {5, 2, 2, 3}, {4, 3, 1, 2}, {2, 3, 4, 2}, {2, 2, 2, 2}};
    if (thorough) {
        sh.push_back({7, 2, 3, 4});
        sh.push_back({9, 3, 2, 8});
        sh.push_back({3, 1, 5, 1});
    }
    for (auto& s : sh) {
        for (int tied = 0; tied < 2; ++tied) {
            World w;
            size_t n = s.nnode * s.ndim;
            std::vector<size_t> c(s.nelem * s.nne), d(n);
            for (size_t i = 0; i < c.size(); ++i) {
                c[i] = (i + i / s.nne) % s.nnode;
            }
            c[c.size() - 1] = s.nnode - 1;
            size_t m = tied ? n - (n > 3 ? 2 : n > 1 ? 1 : 0) : n;
            for (size_t i = 0; i < n; ++i) {
                d[i] = i % m;
            }
            if (tied && m == n) {
                continue;
            }
            w.conn = make2(s.nelem, s.nne, c);
            w.dofs = make2(s.nnode, s.ndim, d);
            std::vector<std::vector<size_t>> p = {{}, {m - 1}};
            if (m > 2) {
                p.push_back({1, 0});
            }
            if (m > 4) {
                p.push_back({4, 0, 2});
            }
            if (thorough || m < 4) {
                std::vector<size_t> all(m);
                for (size_t i = 0; i < m; ++i) {
                    all[i] = i;
                }
                if (m > 1) {
                    p.push_back(all);
                }
            }
            for (auto& q : p) {
                r.push_back({w, q});
            }
        }
    }
    return r;
}

template <class V>
static std::vector<Op> vector_ops(const V& v, const World& w)
{
    Shp n = {w.nnode(), w.ndim()}, d = {w.ndof()}, e = {w.nelem(), w.nne(), w.ndim()};
    std::vector<Op> r;
    auto alt = [](std::vector<Shp> first, Shp ret) {
        return [=](const std::vector<Shp>& s) {
            return std::find(first.begin(), first.end(), s[0]) != first.end() && (s.size() < 2 || s[1] == ret);
        };
    };
    r.push_back({"copy", {n, n}, [&](Args& a) { v.copy(a[0], a[1]); }, true});
    r.push_back({"Copy", {n, n}, [&](Args& a) { v.Copy(a[0], a[1]); }, true});
    for (auto& s : {n, e}) {
        r.push_back({"asDofs", {s, d}, [&](Args& a) { v.asDofs(a[0], a[1]); }, true, alt({n, e}, d)});
        r.push_back({"AsDofs", {s}, [&](Args& a) { v.AsDofs(a[0]); }, true, alt({n, e}, d)});
        r.push_back({"assembleDofs", {s, d}, [&](Args& a) { v.assembleDofs(a[0], a[1]); }, true, alt({n, e}, d)});
        r.push_back({"AssembleDofs", {s}, [&](Args& a) { v.AssembleDofs(a[0]); }, true, alt({n, e}, d)});
    }
    for (auto& s : {d, e}) {
        r.push_back({"asNode", {s, n}, [&](Args& a) { v.asNode(a[0], a[1]); }, true, alt({d, e}, n)});
        r.push_back({"AsNode", {s}, [&](Args& a) { v.AsNode(a[0]); }, true, alt({d, e}, n)});
    }
    for (auto& s : {d, n}) {
        r.push_back({"asElement", {s, e}, [&](Args& a) { v.asElement(a[0], a[1]); }, true, alt({d, n}, e)});
        r.push_back({"AsElement", {s}, [&](Args& a) { v.AsElement(a[0]); }, true, alt({d, n}, e)});
    }
    r.push_back({"assembleNode", {e, n}, [&](Args& a) { v.assembleNode(a[0], a[1]); }, true});
    r.push_back({"AssembleNode", {e}, [&](Args& a) { v.AssembleNode(a[0]); }, true});
    // arrays of fixed rank
    r.push_back({"asDofs<2>", {n, d}, [&](Args& a) { R<1> x(a[1]); v.asDofs(A2(a[0]), x.v); }});
    r.push_back({"asDofs<3>", {e, d}, [&](Args& a) { R<1> x(a[1]); v.asDofs(A3(a[0]), x.v); }});
    r.push_back({"AsDofs<2>", {n}, [&](Args& a) { v.AsDofs(A2(a[0])); }});
    r.push_back({"AsDofs<3>", {e}, [&](Args& a) { v.AsDofs(A3(a[0])); }});
    r.push_back({"asNode<1>", {d, n}, [&](Args& a) { R<2> x(a[1]); v.asNode(A1(a[0]), x.v); }});
    r.push_back({"asNode<3>", {e, n}, [&](Args& a) { R<2> x(a[1]); v.asNode(A3(a[0]), x.v); }});
    r.push_back({"AsNode<1>", {d}, [&](Args& a) { v.AsNode(A1(a[0])); }});
    r.push_back({"AsNode<3>", {e}, [&](Args& a) { v.AsNode(A3(a[0])); }});
    r.push_back({"asElement<1>", {d, e}, [&](Args& a) { R<3> x(a[1]); v.asElement(A1(a[0]), x.v); }});
    r.push_back({"asElement<2>", {n, e}, [&](Args& a) { R<3> x(a[1]); v.asElement(A2(a[0]), x.v); }});
    r.push_back({"AsElement<1>", {d}, [&](Args& a) { v.AsElement(A1(a[0])); }});
    r.push_back({"AsElement<2>", {n}, [&](Args& a) { v.AsElement(A2(a[0])); }});
    r.push_back({"assembleDofs<2>", {n, d}, [&](Args& a) { R<1> x(a[1]); v.assembleDofs(A2(a[0]), x.v); }});
    r.push_back({"assembleDofs<3>", {e, d}, [&](Args& a) { R<1> x(a[1]); v.assembleDofs(A3(a[0]), x.v); }});
    r.push_back({"AssembleDofs<2>", {n}, [&](Args& a) { v.AssembleDofs(A2(a[0])); }});
    r.push_back({"AssembleDofs<3>", {e}, [&](Args& a) { v.AssembleDofs(A3(a[0])); }});
    r.push_back({"assembleNode<3>", {e, n}, [&](Args& a) { R<2> x(a[1]); v.assembleNode(A3(a[0]), x.v); }});
    r.push_back({"AssembleNode<3>", {e}, [&](Args& a) { v.AssembleNode(A3(a[0])); }});
    return r;
}

static std::vector<Op> partitioned_ops(const GooseFEM::VectorPartitioned& v, const World& w)
{
    Shp n = {w.nnode(), w.ndim()}, d = {w.ndof()}, e = {w.nelem(), w.nne(), w.ndim()}, u = {v.nnu()}, p = {v.nnp()};
    std::vector<Op> r;
    r.push_back({"copy_u", {n, n}, [&](Args& a) { R<2> x(a[1]); v.copy_u(A2(a[0]), x.v); }});
    r.push_back({"copy_p", {n, n}, [&](Args& a) { R<2> x(a[1]); v.copy_p(A2(a[0]), x.v); }});
    r.push_back({"Copy_u", {n, n}, [&](Args& a) { v.Copy_u(A2(a[0]), A2(a[1])); }});
    r.push_back({"Copy_p", {n, n}, [&](Args& a) { v.Copy_p(A2(a[0]), A2(a[1])); }});
    r.push_back({"dofsFromParitioned", {u, p, d}, [&](Args& a) { R<1> x(a[2]); v.dofsFromParitioned(A1(a[0]), A1(a[1]), x.v); }});
    r.push_back({"DofsFromParitioned", {u, p}, [&](Args& a) { v.DofsFromParitioned(A1(a[0]), A1(a[1])); }});
    r.push_back({"nodeFromPartitioned", {u, p, n}, [&](Args& a) { R<2> x(a[2]); v.nodeFromPartitioned(A1(a[0]), A1(a[1]), x.v); }});
    r.push_back({"NodeFromPartitioned", {u, p}, [&](Args& a) { v.NodeFromPartitioned(A1(a[0]), A1(a[1])); }});
    r.push_back({"elementFromPartitioned", {u, p, e}, [&](Args& a) { R<3> x(a[2]); v.elementFromPartitioned(A1(a[0]), A1(a[1]), x.v); }});
    r.push_back({"ElementFromPartitioned", {u, p}, [&](Args& a) { v.ElementFromPartitioned(A1(a[0]), A1(a[1])); }});
    r.push_back({"asDofs_u(dofval)", {d, u}, [&](Args& a) { R<1> x(a[1]); v.asDofs_u(A1(a[0]), x.v); }});
    r.push_back({"asDofs_u(nodevec)", {n, u}, [&](Args& a) { R<1> x(a[1]); v.asDofs_u(A2(a[0]), x.v); }});
    r.push_back({"asDofs_u(elemvec)", {e, u}, [&](Args& a) { R<1> x(a[1]); v.asDofs_u(A3(a[0]), x.v); }});
    r.push_back({"asDofs_p(dofval)", {d, p}, [&](Args& a) { R<1> x(a[1]); v.asDofs_p(A1(a[0]), x.v); }});
    r.push_back({"asDofs_p(nodevec)", {n, p}, [&](Args& a) { R<1> x(a[1]); v.asDofs_p(A2(a[0]), x.v); }});
    r.push_back({"asDofs_p(elemvec)", {e, p}, [&](Args& a) { R<1> x(a[1]); v.asDofs_p(A3(a[0]), x.v); }});
    r.push_back({"AsDofs_u(dofval)", {d}, [&](Args& a) { v.AsDofs_u(A1(a[0])); }});
    r.push_back({"AsDofs_u(nodevec)", {n}, [&](Args& a) { v.AsDofs_u(A2(a[0])); }});
    r.push_back({"AsDofs_u(elemvec)", {e}, [&](Args& a) { v.AsDofs_u(A3(a[0])); }});
    r.push_back({"AsDofs_p(dofval)", {d}, [&](Args& a) { v.AsDofs_p(A1(a[0])); }});
    r.push_back({"AsDofs_p(nodevec)", {n}, [&](Args& a) { v.AsDofs_p(A2(a[0])); }});
    r.push_back({"AsDofs_p(elemvec)", {e}, [&](Args& a) { v.AsDofs_p(A3(a[0])); }});
    return r;
}

// what all matrices have
template <class M>
static std::vector<Op> matrix_ops(M& A, const World& w, bool products)
{
    size_t N = w.nne() * w.ndim();
    Shp n = {w.nnode(), w.ndim()}, d = {w.ndof()}, K = {w.nelem(), N, N}, f = {w.ndof(), w.ndof()};
    std::vector<Op> r;
    r.push_back({"assemble(elemmat)", {K}, [&](Args& a) { A.assemble(A3(a[0])); }});
    r.push_back({"assemble(elemmat dynamic)", {K}, [&](Args& a) { A.assemble(a[0]); }, std::is_same<M, GooseFEM::Matrix>::value || std::is_same<M, GooseFEM::MatrixPartitioned>::value});
    r.push_back({"todense", {f}, [&](Args& a) { A.todense(a[0]); }, true});
    r.push_back({"todense<2>", {f}, [&](Args& a) { R<2> x(a[0]); A.todense(x.v); }});
    if (products) {
        r.push_back({"dot(nodevec)", {n, n}, [&](Args& a) { R<2> x(a[1]); A.dot(A2(a[0]), x.v); }});
        r.push_back({"dot(dofval)", {d, d}, [&](Args& a) { R<1> x(a[1]); A.dot(A1(a[0]), x.v); }});
        r.push_back({"Dot(nodevec)", {n}, [&](Args& a) { A.Dot(A2(a[0])); }});
        r.push_back({"Dot(dofval)", {d}, [&](Args& a) { A.Dot(A1(a[0])); }});
    }
    return r;
}

template <class M>
static void reaction_ops(std::vector<Op>& r, M& A, const World& w)
{
    Shp n = {w.nnode(), w.ndim()}, d = {w.ndof()}, u = {A.nnu()}, p = {A.nnp()};
    r.push_back({"reaction(nodevec)", {n, n}, [&](Args& a) { R<2> x(a[1]); A.reaction(A2(a[0]), x.v); }});
    r.push_back({"reaction(dofval)", {d, d}, [&](Args& a) { R<1> x(a[1]); A.reaction(A1(a[0]), x.v); }});
    r.push_back({"Reaction(nodevec)", {n, n}, [&](Args& a) { A.Reaction(A2(a[0]), A2(a[1])); }});
    r.push_back({"Reaction(dofval)", {d, d}, [&](Args& a) { A.Reaction(A1(a[0]), A1(a[1])); }});
    r.push_back({"reaction_p", {u, p, p}, [&](Args& a) { R<1> x(a[2]); A.reaction_p(A1(a[0]), A1(a[1]), x.v); }});
    r.push_back({"Reaction_p", {u, p}, [&](Args& a) { A.Reaction_p(A1(a[0]), A1(a[1])); }});
}

template <class M>
static void set_ops(std::vector<Op>& r, M& A, const World& w)
{
    size_t m = w.ndof(), nr = std::min<size_t>(m, 3), nc = std::min<size_t>(m, 2);
    auto index = [=](const XA& a) {
        S1 s = S1::from_shape({a.size()});
        for (size_t i = 0; i < a.size(); ++i) {
            s(i) = (m - 1 + m * 4 - i) % m;
        }
        return s;
    };
    auto valid = [](const std::vector<Shp>& s) { return s[0][0] == s[2][0] && s[1][0] == s[2][1]; };
    r.push_back({"set", {{nr}, {nc}, {nr, nc}}, [&A, index](Args& a) { A.set(index(a[0]), index(a[1]), A2(a[2])); }, false, valid});
    r.push_back({"add", {{nr}, {nc}, {nr, nc}}, [&A, index](Args& a) { A.add(index(a[0]), index(a[1]), A2(a[2])); }, false, valid});
}

template <class M>
static void diagonal_ops(std::vector<Op>& r, M& A, const World& w)
{
    Shp n = {w.nnode(), w.ndim()}, d = {w.ndof()};
    r.push_back({"set(A)", {d}, [&](Args& a) { A.set(A1(a[0])); }});
    r.push_back({"solve(nodevec)", {n, n}, [&](Args& a) { R<2> x(a[1]); A.solve(A2(a[0]), x.v); }});
    r.push_back({"solve(dofval)", {d, d}, [&](Args& a) { R<1> x(a[1]); A.solve(A1(a[0]), x.v); }});
    r.push_back({"Solve(nodevec)", {n}, [&](Args& a) { A.Solve(A2(a[0])); }});
    r.push_back({"Solve(dofval)", {d}, [&](Args& a) { A.Solve(A1(a[0])); }});
}

// element matrix with one off-diagonal entry: rejected by the diagonal matrices, without effect
template <class M>
static void offdiagonal(Explorer& X, M& A, const World& w)
{
    size_t N = w.nne() * w.ndim();
    Shp s = {w.nelem(), N, N};
    A3 K(filled(s, 3, true));
    A.assemble(K);
    std::vector<double> o = vec(A.Todense());
    for (size_t e = 0; e < w.nelem(); ++e) {
        for (size_t i = 0; i < N; ++i) {
            for (size_t j = 0; j < N; ++j) {
                if (i == j) {
                    continue;
                }
                for (double q : {1.0, -1.0, 1e-6}) {
                    A3 B = 2.0 * K;
                    B(e, i, j) = q;
                    X.check(throws([&]() { A.assemble(B); }), "assemble of a matrix with entry (", e, ",", i, ",", j, ") = ", q, " is accepted");
                    X.check(same(vec(A.Todense()), o), "rejected assemble changed the matrix");
                    ++X.transitions;
                }
            }
        }
    }
}

// rows/columns that do not exist
template <class M>
static void outofrange(Explorer& X, M& A, const World& w)
{
    size_t m = w.ndof();
    std::vector<double> o = vec(A.Todense());
    for (size_t nr : {1, 2, 3}) {
        for (size_t nc : {1, 2}) {
            for (size_t k = 0; k < nr + nc; ++k) {
                for (size_t bad : {m, m + 1, m + 100, static_cast<size_t>(-1) / 2}) {
                    S1 rows = S1::from_shape({nr}), cols = S1::from_shape({nc});
                    for (size_t i = 0; i < nr; ++i) {
                        rows(i) = i % m;
                    }
                    for (size_t i = 0; i < nc; ++i) {
                        cols(i) = i % m;
                    }
                    (k < nr ? rows(k) : cols(k - nr)) = bad;
                    A2 v = xt::ones<double>({nr, nc});
                    X.check(throws([&]() { A.set(rows, cols, v); }), "set accepts rows ", vh::str(rows), " columns ", vh::str(cols));
                    X.check(throws([&]() { A.add(rows, cols, v); }), "add accepts rows ", vh::str(rows), " columns ", vh::str(cols));
                    X.check(same(vec(A.Todense()), o), "rejected set/add changed the matrix");
                    X.transitions += 2;
                }
            }
        }
    }
}

// Constructors: every entry of the connectivity / of the DOFs / of the prescribed DOFs out of range, duplicates
template <class F>
static void constructor(Explorer& X, const Sys& s, const std::string& name, bool has_iip, F&& make)
{
    const World& w = s.w;
    S1 iip = sarr(s.iip);
    X.check(!throws([&]() { make(w.conn, w.dofs, iip); }), name, " rejects a consistent system");
    for (size_t k = 0; k < w.conn.size(); ++k) {
        for (size_t bad : {w.nnode(), w.nnode() + 1, w.nnode() * 50}) {
            S2 c = w.conn;
            c.data()[k] = bad;
            X.check(throws([&]() { make(c, w.dofs, iip); }), name, " accepts connectivity ", vh::str(c), " with ", w.nnode(), " nodes");
            ++X.transitions;
        }
    }
    for (size_t k = 0; k < w.dofs.size(); ++k) {
        for (size_t bad : {w.dofs.size(), w.dofs.size() + 3}) {
            S2 d = w.dofs;
            d.data()[k] = bad;
            X.check(throws([&]() { make(w.conn, d, iip); }), name, " accepts DOFs ", vh::str(d));
            ++X.transitions;
        }
    }
    if (!has_iip) {
        return;
    }
    for (size_t k = 0; k < iip.size(); ++k) {
        for (size_t bad : {w.ndof(), w.ndof() + 1, w.ndof() * 10}) {
            S1 p = iip;
            p(k) = bad;
            X.check(throws([&]() { make(w.conn, w.dofs, p); }), name, " accepts prescribed DOFs ", vh::str(p), " with ", w.ndof(), " DOFs");
            ++X.transitions;
        }
    }
    for (size_t k = 0; k < iip.size(); ++k) {
        for (size_t at = 0; at <= iip.size(); ++at) {
            std::vector<size_t> p = s.iip;
            p.insert(p.begin() + static_cast<long>(at), s.iip[k]);
            X.check(throws([&]() { make(w.conn, w.dofs, sarr(p)); }), name, " accepts prescribed DOFs with duplicates ", vh::str(p));
            ++X.transitions;
        }
    }
}

static const Observe nothing = []() { return std::vector<double>(); };

template <class OPS>
static void all(Explorer& X, const std::string& object, const std::string& sys, OPS&& make_ops)
{
    // make_ops(i, f) builds the object anew and calls f(op, observe) with its i-th operation; returns the number of operations
    size_t n = make_ops(~size_t(0), [](const Op&, const Observe&) {});
    for (size_t i = 0; i < n; ++i) {
        X.run([&]() {
            std::string name;
            make_ops(i, [&](const Op& op, const Observe&) { name = op.name; });
            return object + "::" + name + ", " + sys;
        }, [&]() {
            make_ops(i, [&](const Op& op, const Observe& o) { explore(X, op, o); });
        });
    }
}

template <class F>
static size_t pick(const std::vector<Op>& ops, size_t i, F&& f, const Observe& o)
{
    if (i < ops.size()) {
        f(ops[i], o);
    }
    return ops.size();
}

// element matrices that give a positive definite system
static A3 stiffness(const World& w)
{
    size_t N = w.nne() * w.ndim();
    A3 K = A3::from_shape({w.nelem(), N, N});
    for (size_t e = 0; e < w.nelem(); ++e) {
        for (size_t i = 0; i < N; ++i) {
            for (size_t j = 0; j < N; ++j) {
                K(e, i, j) = i == j ? 4.0 * static_cast<double>(N) + static_cast<double>(e + i) : -1.0;
            }
        }
    }
    return K;
}

static void linear(Explorer& X)
{
    for (auto& s : systems(X.thorough)) {
        const World& w = s.w;
        S1 iip = sarr(s.iip);
        bool first = s.iip.empty();
        std::string name = s.str();
        size_t N = w.nne() * w.ndim();
        Shp n = {w.nnode(), w.ndim()}, d = {w.ndof()};

        X.run([&]() { return "constructors, " + name; }, [&]() {
            constructor(X, s, "Vector", false, [](const S2& c, const S2& d, const S1&) { GooseFEM::Vector v(c, d); });
            constructor(X, s, "VectorPartitioned", true, [](const S2& c, const S2& d, const S1& p) { GooseFEM::VectorPartitioned v(c, d, p); });
            constructor(X, s, "Matrix", false, [](const S2& c, const S2& d, const S1&) { GooseFEM::Matrix v(c, d); });
            constructor(X, s, "MatrixPartitioned", true, [](const S2& c, const S2& d, const S1& p) { GooseFEM::MatrixPartitioned v(c, d, p); });
            constructor(X, s, "MatrixDiagonal", false, [](const S2& c, const S2& d, const S1&) { GooseFEM::MatrixDiagonal v(c, d); });
            constructor(X, s, "MatrixDiagonalPartitioned", true, [](const S2& c, const S2& d, const S1& p) { GooseFEM::MatrixDiagonalPartitioned v(c, d, p); });
        });
        if (first) {
            all(X, "Vector", name, [&](size_t i, auto&& f) {
                GooseFEM::Vector v(w.conn, w.dofs);
                return pick(vector_ops(v, w), i, f, nothing);
            });
            all(X, "Matrix", name, [&](size_t i, auto&& f) {
                GooseFEM::Matrix A(w.conn, w.dofs);
                A.assemble(stiffness(w));
                auto ops = matrix_ops(A, w, true);
                set_ops(ops, A, w);
                return pick(ops, i, f, [&]() { return vec(A.Todense()); });
            });
            X.run([&]() { return "Matrix::set/add with rows or columns out of range, " + name; }, [&]() {
                GooseFEM::Matrix A(w.conn, w.dofs);
                A.assemble(stiffness(w));
                outofrange(X, A, w);
            });
            all(X, "MatrixSolver", name, [&](size_t i, auto&& f) {
                GooseFEM::Matrix A(w.conn, w.dofs);
                A.assemble(stiffness(w));
                GooseFEM::MatrixSolver<> S;
                std::vector<Op> r;
                r.push_back({"solve(nodevec)", {n, n}, [&](Args& a) { R<2> x(a[1]); S.solve(A, A2(a[0]), x.v); }});
                r.push_back({"solve(dofval)", {d, d}, [&](Args& a) { R<1> x(a[1]); S.solve(A, A1(a[0]), x.v); }});
                r.push_back({"Solve(nodevec)", {n}, [&](Args& a) { S.Solve(A, A2(a[0])); }});
                r.push_back({"Solve(dofval)", {d}, [&](Args& a) { S.Solve(A, A1(a[0])); }});
                A1 b = xt::ones<double>({w.ndof()});
                return pick(r, i, f, [&, b]() { return vec(S.Solve(A, b)); });
            });
            all(X, "MatrixDiagonal", name, [&](size_t i, auto&& f) {
                GooseFEM::MatrixDiagonal A(w.conn, w.dofs);
                A.assemble(A3(filled({w.nelem(), N, N}, 1, true)));
                auto ops = matrix_ops(A, w, true);
                diagonal_ops(ops, A, w);
                A1 b = xt::ones<double>({w.ndof()});
                return pick(ops, i, f, [&, b]() {
                    std::vector<double> r = vec(A.Todense()), x = vec(A.Solve(b));
                    r.insert(r.end(), x.begin(), x.end());
                    return r;
                });
            });
            X.run([&]() { return "MatrixDiagonal::assemble of non-diagonal matrices, " + name; }, [&]() {
                GooseFEM::MatrixDiagonal A(w.conn, w.dofs);
                offdiagonal(X, A, w);
            });
        }
        all(X, "VectorPartitioned", name, [&](size_t i, auto&& f) {
            GooseFEM::VectorPartitioned v(w.conn, w.dofs, iip);
            return pick(partitioned_ops(v, w), i, f, nothing);
        });
        all(X, "MatrixPartitioned", name, [&](size_t i, auto&& f) {
            GooseFEM::MatrixPartitioned A(w.conn, w.dofs, iip);
            A.assemble(stiffness(w));
            auto ops = matrix_ops(A, w, true);
            reaction_ops(ops, A, w);
            set_ops(ops, A, w);
            return pick(ops, i, f, [&]() { return vec(A.Todense()); });
        });
        X.run([&]() { return "MatrixPartitioned::set/add with rows or columns out of range, " + name; }, [&]() {
            GooseFEM::MatrixPartitioned A(w.conn, w.dofs, iip);
            A.assemble(stiffness(w));
            outofrange(X, A, w);
        });
        if (s.iip.size() < w.ndof()) {
            all(X, "MatrixPartitionedSolver", name, [&](size_t i, auto&& f) {
                GooseFEM::MatrixPartitioned A(w.conn, w.dofs, iip);
                A.assemble(stiffness(w));
                GooseFEM::MatrixPartitionedSolver<> S;
                Shp u = {A.nnu()}, p = {A.nnp()};
                std::vector<Op> r;
                r.push_back({"solve(nodevec)", {n, n}, [&](Args& a) { R<2> x(a[1]); S.solve(A, A2(a[0]), x.v); }});
                r.push_back({"solve(dofval)", {d, d}, [&](Args& a) { R<1> x(a[1]); S.solve(A, A1(a[0]), x.v); }});
                r.push_back({"Solve(nodevec)", {n, n}, [&](Args& a) { S.Solve(A, A2(a[0]), A2(a[1])); }});
                r.push_back({"Solve(dofval)", {d, d}, [&](Args& a) { S.Solve(A, A1(a[0]), A1(a[1])); }});
                r.push_back({"solve_u", {u, p, u}, [&](Args& a) { R<1> x(a[2]); S.solve_u(A, A1(a[0]), A1(a[1]), x.v); }});
                r.push_back({"Solve_u", {u, p}, [&](Args& a) { S.Solve_u(A, A1(a[0]), A1(a[1])); }});
                A1 b = xt::ones<double>({w.ndof()});
                return pick(r, i, f, [&, b]() { return vec(S.Solve(A, b, b)); });
            });
        }
        all(X, "MatrixDiagonalPartitioned", name, [&](size_t i, auto&& f) {
            GooseFEM::MatrixDiagonalPartitioned A(w.conn, w.dofs, iip);
            A.assemble(A3(filled({w.nelem(), N, N}, 1, true)));
            auto ops = matrix_ops(A, w, true);
            reaction_ops(ops, A, w);
            diagonal_ops(ops, A, w);
            Shp u = {A.nnu()}, p = {A.nnp()};
            ops.push_back({"dot_u", {u, p, u}, [&](Args& a) { R<1> x(a[2]); A.dot_u(A1(a[0]), A1(a[1]), x.v); }});
            ops.push_back({"dot_p", {u, p, p}, [&](Args& a) { R<1> x(a[2]); A.dot_p(A1(a[0]), A1(a[1]), x.v); }});
            ops.push_back({"Dot_u", {u, p}, [&](Args& a) { A.Dot_u(A1(a[0]), A1(a[1])); }});
            ops.push_back({"Dot_p", {u, p}, [&](Args& a) { A.Dot_p(A1(a[0]), A1(a[1])); }});
            ops.push_back({"solve_u", {u, p, u}, [&](Args& a) { R<1> x(a[2]); A.solve_u(A1(a[0]), A1(a[1]), x.v); }});
            ops.push_back({"Solve_u", {u, p}, [&](Args& a) { A.Solve_u(A1(a[0]), A1(a[1])); }});
            A1 b = xt::ones<double>({w.ndof()});
            return pick(ops, i, f, [&, b]() {
                A1 x = b;
                A.solve(b, x);
                std::vector<double> r = vec(A.Todense()), q = vec(x);
                r.insert(r.end(), q.begin(), q.end());
                return r;
            });
        });
        X.run([&]() { return "MatrixDiagonalPartitioned::assemble of non-diagonal matrices, " + name; }, [&]() {
            GooseFEM::MatrixDiagonalPartitioned A(w.conn, w.dofs, iip);
            offdiagonal(X, A, w);
        });
    }
}

// Tied systems: DOFs [0, nnu + nnp) independent, the rest dependent.
static Eigen::SparseMatrix<double> tying(size_t rows, size_t cols)
{
    Eigen::SparseMatrix<double> C(static_cast<long>(rows), static_cast<long>(cols));
    std::vector<Eigen::Triplet<double>> t;
    for (size_t i = 0; i < rows && cols > 0; ++i) {
        t.push_back(Eigen::Triplet<double>(static_cast<int>(i), static_cast<int>(i % cols), 1.0));
    }
    C.setFromTriplets(t.begin(), t.end());
    return C;
}

static void tied(Explorer& X)
{
    struct S { size_t nnode, ndim, nelem, nne; };
    std::vector<S> sh = {{3, 1, 2, 2}, {3, 2, 1, 3}, {5, 2, 2, 3}, {4, 3, 1, 2}, {2, 2, 3, 2}};
    for (auto& s : sh) {
        size_t ndof = s.nnode * s.ndim;
        World w;
        std::vector<size_t> c(s.nelem * s.nne), q(ndof);
        for (size_t i = 0; i < c.size(); ++i) {
            c[i] = (i + i / s.nne) % s.nnode;
        }
        for (size_t i = 0; i < ndof; ++i) {
            q[i] = i;
        }
        w.conn = make2(s.nelem, s.nne, c);
        w.dofs = make2(s.nnode, s.ndim, q);
        for (size_t nnd = 1; nnd < ndof && nnd <= 3; ++nnd) {
            for (size_t nnp = 0; nnp + nnd < ndof && nnp <= 2; ++nnp) {
                size_t nnu = ndof - nnd - nnp, nni = nnu + nnp;
                auto Cdu = tying(nnd, nnu), Cdp = tying(nnd, nnp), Cdi = tying(nnd, nni);
                std::string name = w.str() + " nnu,nnp,nnd=" + std::to_string(nnu) + "," + std::to_string(nnp) + "," + std::to_string(nnd);
                Shp n = {w.nnode(), w.ndim()}, d = {ndof}, u = {nnu}, p = {nnp}, D = {nnd}, I = {nni};
                X.run([&]() { return "constructors of tied systems, " + name; }, [&]() {
                    std::vector<std::pair<size_t, size_t>> du, dp, di;
                    auto around = [](size_t a, size_t b) {
                        std::vector<std::pair<size_t, size_t>> r;
                        for (int i = -1; i <= 1; ++i) {
                            for (int j = -1; j <= 1; ++j) {
                                if (static_cast<int>(a) + i >= 0 && static_cast<int>(b) + j >= 0) {
                                    r.push_back({a + static_cast<size_t>(i), b + static_cast<size_t>(j)});
                                }
                            }
                        }
                        return r;
                    };
                    for (auto& a : around(nnd, nnu)) {
                        for (auto& b : around(nnd, nnp)) {
                            auto A = tying(a.first, a.second), B = tying(b.first, b.second);
                            bool ok = a.first == b.first && a.first + a.second + b.second == ndof;
                            ++X.transitions;
                            bool t = throws([&]() { GooseFEM::MatrixPartitionedTyings M(w.conn, w.dofs, A, B); });
                            X.check(t == !ok, "MatrixPartitionedTyings ", t ? "rejects" : "accepts", " Cdu ", a.first, "x", a.second, " Cdp ", b.first, "x", b.second, " for ", ndof, " DOFs");
                            for (auto& e : around(nnd, nni)) {
                                auto E = tying(e.first, e.second);
                                bool ok3 = ok && e.first == a.first && e.second == a.second + b.second;
                                ++X.transitions;
                                bool t3 = throws([&]() { GooseFEM::VectorPartitionedTyings V(w.conn, w.dofs, A, B, E); });
                                X.check(t3 == !ok3, "VectorPartitionedTyings ", t3 ? "rejects" : "accepts", " Cdu ", a.first, "x", a.second, " Cdp ", b.first, "x", b.second, " Cdi ", e.first,
                                        "x", e.second, " for ", ndof, " DOFs");
                            }
                        }
                    }
                    Sys sys{w, {}};
                    constructor(X, sys, "MatrixPartitionedTyings", false, [&](const S2& c, const S2& d, const S1&) { GooseFEM::MatrixPartitionedTyings v(c, d, Cdu, Cdp); });
                    constructor(X, sys, "VectorPartitionedTyings", false, [&](const S2& c, const S2& d, const S1&) { GooseFEM::VectorPartitionedTyings v(c, d, Cdu, Cdp, Cdi); });
                });
                all(X, "VectorPartitionedTyings", name, [&](size_t i, auto&& f) {
                    GooseFEM::VectorPartitionedTyings v(w.conn, w.dofs, Cdu, Cdp, Cdi);
                    auto r = vector_ops(v, w);
                    if (nnd == 1) {
                        r.clear();
                    }
                    auto ok = [=](const std::vector<Shp>& s) { return (s[0] == d || s[0] == I) && (s[1] == d || s[1] == I); };
                    r.push_back({"copy_p(dofval)", {d, d}, [&](Args& a) { v.copy_p(a[0], a[1]); }, true, ok});
                    r.push_back({"copy_p(dofval_i)", {I, I}, [&](Args& a) { R<1> x(a[1]); A1 y(a[0]); v.copy_p(y, x.v); }, false, ok});
                    r.push_back({"asDofs_i", {n, I}, [&](Args& a) { v.asDofs_i(a[0], a[1]); }});
                    r.push_back({"asDofs_i(apply_tyings=false)", {n, I}, [&](Args& a) { R<1> x(a[1]); v.asDofs_i(A2(a[0]), x.v, false); }});
                    r.push_back({"AsDofs_i", {n}, [&](Args& a) { v.AsDofs_i(a[0]); }, true});
                    return pick(r, i, f, nothing);
                });
                all(X, "MatrixPartitionedTyings", name, [&](size_t i, auto&& f) {
                    GooseFEM::MatrixPartitionedTyings A(w.conn, w.dofs, Cdu, Cdp);
                    A.assemble(stiffness(w));
                    return pick(matrix_ops(A, w, false), i, f, [&]() { return vec(A.Todense()); });
                });
                all(X, "MatrixPartitionedTyingsSolver", name, [&](size_t i, auto&& f) {
                    GooseFEM::MatrixPartitionedTyings A(w.conn, w.dofs, Cdu, Cdp);
                    A.assemble(stiffness(w));
                    GooseFEM::MatrixPartitionedTyingsSolver<> S;
                    std::vector<Op> r;
                    r.push_back({"solve(nodevec)", {n, n}, [&](Args& a) { R<2> x(a[1]); S.solve(A, A2(a[0]), x.v); }});
                    r.push_back({"solve(dofval)", {d, d}, [&](Args& a) { R<1> x(a[1]); S.solve(A, A1(a[0]), x.v); }});
                    r.push_back({"Solve(nodevec)", {n, n}, [&](Args& a) { S.Solve(A, A2(a[0]), A2(a[1])); }});
                    r.push_back({"Solve(dofval)", {d, d}, [&](Args& a) { S.Solve(A, A1(a[0]), A1(a[1])); }});
                    r.push_back({"solve_u", {u, D, p, u}, [&](Args& a) { R<1> x(a[3]); S.solve_u(A, A1(a[0]), A1(a[1]), A1(a[2]), x.v); }});
                    r.push_back({"Solve_u", {u, D, p}, [&](Args& a) { S.Solve_u(A, A1(a[0]), A1(a[1]), A1(a[2])); }});
                    A1 b = xt::ones<double>({ndof});
                    return pick(r, i, f, [&, b]() { return vec(S.Solve(A, b, b)); });
                });
            }
        }
    }
}

// ---------------------------------------------------------------------------------------------------------------

template <Kind K>
static void element(Explorer& X)
{
    using T = Type<K>;
    using Quad = typename T::Quad;
    constexpr size_t m = T::nne, nd = T::ndim, td = T::tdim;
    for (size_t nelem : {1, 2, 3}) {
        for (size_t nip : {1, 2, 3, 4, 5, 8}) {
            if (!X.thorough && (nelem + nip) % 2 == 1) {
                continue;
            }
            A3 x = A3::from_shape({nelem, m, nd});
            for (size_t e = 0; e < nelem; ++e) {
                for (size_t k = 0; k < m; ++k) {
                    for (size_t i = 0; i < nd; ++i) {
                        x(e, k, i) = corner(k, i) + 3.0 + static_cast<double>(e);
                    }
                }
            }
            A2 xi = xt::zeros<double>({nip, nd});
            for (size_t q = 0; q < nip; ++q) {
                xi(q, 0) = 0.1 * static_cast<double>(q) - 0.3;
            }
            A1 w = xt::ones<double>({nip});
            std::string name = std::string(T::name()) + " nelem=" + std::to_string(nelem) + " nip=" + std::to_string(nip);
            Shp sv = {nelem, m, nd}, sm = {nelem, m * nd, m * nd}, ss = {nelem, nip}, qv = {nelem, nip, nd}, t2 = {nelem, nip, td, td}, t4 = {nelem, nip, td, td, td, td};
            auto position = [=](const XA& a) { // valid positions, of the shape of "a"
                A3 y = A3::from_shape({a.shape(0), a.shape(1), a.shape(2)});
                for (size_t e = 0; e < y.shape(0); ++e) {
                    for (size_t k = 0; k < y.shape(1); ++k) {
                        for (size_t i = 0; i < y.shape(2); ++i) {
                            y(e, k, i) = corner(k % 8, i % 3) + 3.0;
                        }
                    }
                }
                return y;
            };
            all(X, name, "constructors", [&](size_t i, auto&& f) {
                std::vector<Op> r;
                r.push_back({"Quadrature(x)", {sv}, [&](Args& a) { Quad quad(position(a[0])); }, false, [=](const std::vector<Shp>& s) { return s[0][1] == m && s[0][2] == nd; }});
                r.push_back({"Quadrature(x,xi,w)", {sv, {nip, nd}, {nip}},
                             [&](Args& a) {
                                 A2 y(a[1]);
                                 A1 v(a[2]);
                                 Quad quad(position(a[0]), y, v);
                             },
                             false,
                             [=](const std::vector<Shp>& s) { return s[0][1] == m && s[0][2] == nd && s[1][0] == s[2][0] && s[1][1] == nd; }});
                return pick(r, i, f, nothing);
            });
            all(X, name, "functions", [&](size_t i, auto&& f) {
                Quad quad(x, xi, w);
                std::vector<Op> r;
                auto comp = [=](const std::vector<Shp>& s) {
                    if (K == Kind::quad4) {
                        return s[0] == sv && (s.size() < 2 || s[1] == qv);
                    }
                    return s[0][0] == nelem && s[0][1] == m && (s.size() < 2 || (s[1][0] == nelem && s[1][1] == nip && s[1][2] == s[0][2]));
                };
                auto comp2 = [=](const std::vector<Shp>& s) {
                    return s[0][0] == nelem && s[0][1] == nip && (s.size() < 2 || (s[1][0] == nelem && s[1][1] == m && s[1][2] == s[0][2]));
                };
                // any tensor per integration point
                auto as = [=](const std::vector<Shp>& s) { return s[0] == ss && s[1][0] == nelem && s[1][1] == nip; };
                r.push_back({"interpQuad_vector", {sv, qv}, [&](Args& a) { R<3> y(a[1]); quad.interpQuad_vector(A3(a[0]), y.v); }, false, comp});
                r.push_back({"InterpQuad_vector", {sv}, [&](Args& a) { quad.InterpQuad_vector(A3(a[0])); }, false, comp});
                r.push_back({"gradN_vector", {sv, t2}, [&](Args& a) { R<4> y(a[1]); quad.gradN_vector(A3(a[0]), y.v); }});
                r.push_back({"GradN_vector", {sv}, [&](Args& a) { quad.GradN_vector(A3(a[0])); }});
                r.push_back({"gradN_vector_T", {sv, t2}, [&](Args& a) { R<4> y(a[1]); quad.gradN_vector_T(A3(a[0]), y.v); }});
                r.push_back({"GradN_vector_T", {sv}, [&](Args& a) { quad.GradN_vector_T(A3(a[0])); }});
                r.push_back({"symGradN_vector", {sv, t2}, [&](Args& a) { R<4> y(a[1]); quad.symGradN_vector(A3(a[0]), y.v); }});
                r.push_back({"SymGradN_vector", {sv}, [&](Args& a) { quad.SymGradN_vector(A3(a[0])); }});
                r.push_back({"int_N_vector_dV", {qv, sv}, [&](Args& a) { R<3> y(a[1]); quad.int_N_vector_dV(A3(a[0]), y.v); }, false, comp2});
                r.push_back({"Int_N_vector_dV", {qv}, [&](Args& a) { quad.Int_N_vector_dV(A3(a[0])); }, false, comp2});
                r.push_back({"int_N_scalar_NT_dV", {ss, sm}, [&](Args& a) { R<3> y(a[1]); quad.int_N_scalar_NT_dV(A2(a[0]), y.v); }});
                r.push_back({"Int_N_scalar_NT_dV", {ss}, [&](Args& a) { quad.Int_N_scalar_NT_dV(A2(a[0])); }});
                r.push_back({"int_gradN_dot_tensor2_dV", {t2, sv}, [&](Args& a) { R<3> y(a[1]); quad.int_gradN_dot_tensor2_dV(A4(a[0]), y.v); }});
                r.push_back({"Int_gradN_dot_tensor2_dV", {t2}, [&](Args& a) { quad.Int_gradN_dot_tensor2_dV(A4(a[0])); }});
                r.push_back({"int_gradN_dot_tensor4_dot_gradNT_dV", {t4, sm}, [&](Args& a) { R<3> y(a[1]); quad.int_gradN_dot_tensor4_dot_gradNT_dV(xt::xtensor<double, 6>(a[0]), y.v); }});
                r.push_back({"Int_gradN_dot_tensor4_dot_gradNT_dV", {t4}, [&](Args& a) { quad.Int_gradN_dot_tensor4_dot_gradNT_dV(xt::xtensor<double, 6>(a[0])); }});
                r.push_back({"update_x", {sv}, [&](Args& a) { quad.update_x(position(a[0])); }});
                r.push_back({"asTensor<2>", {ss, t2}, [&](Args& a) { R<4> y(a[1]); quad.asTensor(A2(a[0]), y.v); }, false, as});
                r.push_back({"asTensor<4>", {ss, t4}, [&](Args& a) { R<6> y(a[1]); quad.asTensor(A2(a[0]), y.v); }, false, as});
                return pick(r, i, f, [&]() {
                    A2 v = quad.dV();
                    A4 g = quad.GradN_vector(x);
                    std::vector<double> o = vec(v);
                    o.insert(o.end(), g.begin(), g.end());
                    return o;
                });
            });
        }
    }
}

// ---------------------------------------------------------------------------------------------------------------

static void meshes(Explorer& X)
{
    namespace G = GooseFEM::Mesh;
    for (size_t nx : {1, 2, 3}) {
        for (size_t ny : {1, 2}) {
            G::Quad4::Regular mesh(nx, ny);
            A2 coor = mesh.coor();
            S2 conn = mesh.conn();
            size_t nnode = coor.shape(0), nelem = conn.shape(0);
            std::string name = "Quad4(" + std::to_string(nx) + "," + std::to_string(ny) + ")";
            // every entry of the connectivity refers to a node that does not exist
            X.run([&]() { return "functions of a mesh with invalid connectivity, " + name; }, [&]() {
                for (size_t k = 0; k < conn.size(); ++k) {
                    for (size_t bad : {nnode, nnode + 1, nnode * 9}) {
                        S2 c = conn;
                        c.data()[k] = bad;
                        S1 map = xt::arange<size_t>(nelem);
                        X.check(throws([&]() { G::edgesize(coor, c); }), "edgesize accepts ", vh::str(c));
                        X.check(throws([&]() { G::centers(coor, c); }), "centers accepts ", vh::str(c));
                        X.check(throws([&]() { G::elemmap2nodemap(map, coor, c); }), "elemmap2nodemap accepts ", vh::str(c));
                        X.check(throws([&]() { G::nodal_mass(coor, c); }), "nodal_mass accepts ", vh::str(c));
                        X.check(throws([&]() { G::center_of_gravity(coor, c); }), "center_of_gravity accepts ", vh::str(c));
                        X.check(throws([&]() { G::Quad4::FineLayer f(coor, c); }), "FineLayer(coor, conn) accepts ", vh::str(c));
                        X.transitions += 6;
                    }
                }
            });
            // explicit element type
            all(X, "Mesh", name, [&](size_t i, auto&& f) {
                std::vector<Op> r;
                auto conn_of = [=](const XA& a) {
                    S2 c = S2::from_shape({a.shape(0), a.shape(1)});
                    for (size_t k = 0; k < c.size(); ++k) {
                        c.data()[k] = k % 2;
                    }
                    return c;
                };
                auto map_of = [=](const XA& a) {
                    S1 c = S1::from_shape({a.size()});
                    c.fill(0);
                    return c;
                };
                Shp sx = {nnode, 2}, sc = {nelem, 4}, se = {nelem};
                auto ok = [=](const std::vector<Shp>& s) { return s[0][1] == 2 && s[1][1] == 4; };
                auto ok1 = [=](const std::vector<Shp>& s) { return s[1][1] == 2 && s[2][1] == 4 && s[0][0] == s[2][0]; };
                auto Q4 = G::ElementType::Quad4;
                r.push_back({"edgesize", {sx, sc}, [=](Args& a) { G::edgesize(A2(a[0]), conn_of(a[1]), Q4); }, false, ok});
                r.push_back({"centers", {sx, sc}, [=](Args& a) { G::centers(A2(a[0]), conn_of(a[1]), Q4); }, false, ok});
                r.push_back({"elemmap2nodemap", {se, sx, sc}, [=](Args& a) { G::elemmap2nodemap(map_of(a[0]), A2(a[1]), conn_of(a[2]), Q4); }, false, ok1});
                r.push_back({"edgesize(default type)", {sx, sc}, [=](Args& a) { G::edgesize(A2(a[0]), conn_of(a[1])); }, false, ok});
                r.push_back({"centers(default type)", {sx, sc}, [=](Args& a) { G::centers(A2(a[0]), conn_of(a[1])); }, false, ok});
                return pick(r, i, f, nothing);
            });
        }
    }
    // stitching by hand: unequal number of overlapping nodes, nodes that do not overlap, other element type
    for (size_t nx : {1, 2, 3}) {
        X.run([&]() { return "ManualStitch with every pair of node sets, Quad4(" + std::to_string(nx) + ",1)"; }, [&]() {
            G::Quad4::Regular a(nx, 1);
            A2 ca = a.coor(), cb = a.coor();
            S2 ea = a.conn(), eb = a.conn();
            xt::view(cb, xt::all(), 1) += 1.0;
            S1 top = a.nodesTopEdge(), bot = a.nodesBottomEdge();
            X.check(!throws([&]() { G::ManualStitch s(ca, ea, top, cb, eb, bot); }), "rejects matching edges");
            size_t n = ca.shape(0);
            for (size_t k = 0; k < top.size(); ++k) {
                for (size_t v = 0; v < n; ++v) {
                    S1 t = top, b = bot;
                    t(k) = v;
                    b(k) = v;
                    X.check(throws([&]() { G::ManualStitch s(ca, ea, t, cb, eb, bot); }) == (v != top(k)), "overlapping nodes ", vh::str(t), " and ", vh::str(bot));
                    X.check(throws([&]() { G::ManualStitch s(ca, ea, top, cb, eb, b); }) == (v != bot(k)), "overlapping nodes ", vh::str(top), " and ", vh::str(b));
                    X.transitions += 2;
                }
            }
            for (size_t p = 0; p <= top.size(); ++p) {
                for (size_t q = 0; q <= top.size(); ++q) {
                    S1 t = xt::view(top, xt::range(0, p)), b = xt::view(bot, xt::range(0, q));
                    for (bool check : {true, false}) {
                        X.check(throws([&]() { G::ManualStitch s(ca, ea, t, cb, eb, b, check); }) == (p != q), p, " overlapping nodes of a, ", q, " of b");
                        ++X.transitions;
                    }
                }
            }
            S2 e3 = xt::view(ea, xt::all(), xt::range(0, 3));
            A2 c3 = xt::zeros<double>({n, size_t(3)});
            X.check(throws([&]() { G::ManualStitch s(ca, ea, top, cb, e3, bot); }), "accepts elements with different numbers of nodes");
            X.check(throws([&]() { G::ManualStitch s(ca, e3, top, cb, eb, bot); }), "accepts elements with different numbers of nodes");
            X.check(throws([&]() { G::ManualStitch s(ca, ea, top, c3, eb, bot); }), "accepts different numbers of dimensions");
            X.check(throws([&]() { G::ManualStitch s(c3, ea, top, cb, eb, bot); }), "accepts different numbers of dimensions");
            // sets
            G::ManualStitch s(ca, ea, top, cb, eb, bot);
            for (size_t m = 0; m < 4; ++m) {
                for (size_t v = 0; v < n + 3; ++v) {
                    S1 set = {0, v};
                    X.check(throws([&]() { s.nodeset(set, m); }) == (m > 1 || v >= n), "ManualStitch::nodeset([0,", v, "],", m, ") of ", n, " nodes");
                    X.check(throws([&]() { s.elemset(set, m); }) == (m > 1 || v >= nx), "ManualStitch::elemset([0,", v, "],", m, ") of ", nx, " elements");
                    X.transitions += 2;
                }
                X.check(throws([&]() { s.nodemap(m); }) == (m > 1), "ManualStitch::nodemap(", m, ")");
                X.check(throws([&]() { s.elemmap(m); }) == (m > 1), "ManualStitch::elemmap(", m, ")");
            }
        });
        // Stitch, Vstack: a rejected mesh leaves the object as it was
        for (size_t depth = 0; depth < 4; ++depth) {
            X.run([&]() { return "Stitch/Vstack of " + std::to_string(depth) + " meshes Quad4(" + std::to_string(nx) + ",1)"; }, [&]() {
                G::Quad4::Regular a(nx, 1);
                A2 ca = a.coor();
                S2 ea = a.conn();
                size_t n = ca.shape(0);
                G::Stitch S;
                G::Vstack V;
                for (size_t k = 0; k < depth; ++k) {
                    A2 c = ca;
                    xt::view(c, xt::all(), 1) += static_cast<double>(k);
                    S.push_back(c, ea);
                    V.push_back(ca, ea, a.nodesBottomEdge(), a.nodesTopEdge());
                }
                auto state = [&](auto& T) {
                    std::vector<double> r = {static_cast<double>(T.nmesh())};
                    if (depth > 0) {
                        auto add = [&](const auto& v) { r.insert(r.end(), v.begin(), v.end()); };
                        add(T.coor());
                        add(T.conn());
                        for (size_t k = 0; k < T.nmesh(); ++k) {
                            add(T.nodemap(k));
                            add(T.elemmap(k));
                        }
                    }
                    return r;
                };
                auto before = state(S), beforeV = state(V);
                for (size_t m = 0; m < depth + 3; ++m) {
                    for (size_t v = 0; v < n + 3; ++v) {
                        S1 set = {0, v};
                        X.check(throws([&]() { S.nodeset(set, m); }) == (m >= depth || v >= n), "Stitch::nodeset([0,", v, "],", m, ") of ", n, " nodes");
                        X.check(throws([&]() { S.elemset(set, m); }) == (m >= depth || v >= nx), "Stitch::elemset([0,", v, "],", m, ") of ", nx, " elements");
                        X.check(throws([&]() { V.nodeset(set, m); }) == (m >= depth || v >= n), "Vstack::nodeset([0,", v, "],", m, ") of ", n, " nodes");
                        X.check(throws([&]() { V.elemset(set, m); }) == (m >= depth || v >= nx), "Vstack::elemset([0,", v, "],", m, ") of ", nx, " elements");
                        X.transitions += 4;
                    }
                    std::vector<S1> many(m, S1{0});
                    if (m > 0) {
                        X.check(throws([&]() { S.nodeset(many); }) == (m != depth), "Stitch::nodeset of ", m, " sets for ", depth, " meshes");
                        X.check(throws([&]() { S.elemset(many); }) == (m != depth), "Stitch::elemset of ", m, " sets for ", depth, " meshes");
                    }
                    X.check(throws([&]() { S.nodemap(m); }) == (m >= depth), "Stitch::nodemap(", m, ")");
                    X.check(throws([&]() { S.elemmap(m); }) == (m >= depth), "Stitch::elemmap(", m, ")");
                }
                if (depth > 0) {
                    S1 b = a.nodesBottomEdge(), t = a.nodesTopEdge();
                    for (size_t k = 0; k <= b.size() + 1; ++k) {
                        S1 q = S1::from_shape({k});
                        for (size_t i = 0; i < k; ++i) {
                            q(i) = i < b.size() ? b(i) : b.size();
                        }
                        if (k == b.size()) {
                            continue;
                        }
                        X.check(throws([&]() { V.push_back(ca, ea, q, t); }), "Vstack::push_back accepts ", k, " bottom nodes on ", t.size(), " top nodes");
                        X.check(same(state(V), beforeV), "rejected Vstack::push_back changed the mesh");
                        ++X.transitions;
                    }
                    for (size_t k = 0; k < b.size(); ++k) {
                        S1 q = b;
                        q(k) = t(k);
                        X.check(throws([&]() { V.push_back(ca, ea, q, t); }), "Vstack::push_back accepts bottom nodes that do not coincide");
                        X.check(same(state(V), beforeV), "rejected Vstack::push_back changed the mesh");
                        ++X.transitions;
                    }
                    S2 e3 = xt::view(ea, xt::all(), xt::range(0, 3));
                    A2 c3 = xt::zeros<double>({n, size_t(3)});
                    X.check(throws([&]() { S.push_back(ca, e3); }), "Stitch::push_back accepts other elements");
                    X.check(throws([&]() { S.push_back(c3, ea); }), "Stitch::push_back accepts other dimensions");
                    X.check(same(state(S), before), "rejected Stitch::push_back changed the mesh");
                }
                X.check(!throws([&]() { V.push_back(ca, ea, a.nodesBottomEdge(), a.nodesTopEdge()); }), "Vstack::push_back rejects a matching mesh");
            });
        }
    }
    X.run([&]() { return std::string("sizes of meshes, element types, renumbering, overlap"); }, [&]() {
        for (size_t a = 0; a < 3; ++a) {
            for (size_t b = 0; b < 3; ++b) {
                bool ok = a > 0 && b > 0;
                X.check(throws([&]() { G::Quad4::Regular m(a, b); }) == !ok, "Quad4::Regular(", a, ",", b, ")");
                X.check(throws([&]() { G::Tri3::Regular m(a, b); }) == !ok, "Tri3::Regular(", a, ",", b, ")");
                X.check(throws([&]() { G::Quad4::FineLayer m(a, b); }) == !ok, "Quad4::FineLayer(", a, ",", b, ")");
                for (size_t c = 0; c < 3; ++c) {
                    X.check(throws([&]() { G::Hex8::Regular m(a, b, c); }) == !(ok && c > 0), "Hex8::Regular(", a, ",", b, ",", c, ")");
                    X.check(throws([&]() { G::Hex8::FineLayer m(a, b, c); }) == !(ok && c > 0), "Hex8::FineLayer(", a, ",", b, ",", c, ")");
                    X.transitions += 2;
                }
            }
        }
        for (size_t nd = 1; nd < 5; ++nd) {
            for (size_t ne = 1; ne < 10; ++ne) {
                A2 x = xt::zeros<double>({size_t(10), nd});
                S2 c = xt::zeros<size_t>({size_t(2), ne});
                bool ok = (nd == 2 && (ne == 3 || ne == 4)) || (nd == 3 && ne == 8);
                X.check(throws([&]() { G::defaultElementType(x, c); }) == !ok, "defaultElementType of ", nd, " dimensions and ", ne, " nodes per element");
                ++X.transitions;
            }
            for (size_t od = 1; od < 5; ++od) {
                A2 x = xt::zeros<double>({size_t(2), nd}), y = xt::zeros<double>({size_t(3), od});
                X.check(throws([&]() { G::overlapping(x, y); }) == (nd != od), "overlapping in ", nd, " and ", od, " dimensions");
                ++X.transitions;
            }
        }
        for (size_t n = 1; n < 5; ++n) {
            tuples(n, n + 1, [&](const std::vector<size_t>& t) {
                std::set<size_t> u(t.begin(), t.end());
                X.check(throws([&]() { G::Reorder r({sarr(t)}); }) == (u.size() != t.size()), "Reorder ", vh::str(t));
                ++X.transitions;
            });
        }
        for (int o = -4; o <= 4; ++o) {
            G::Tri3::Regular mesh(2, 1);
            A2 x = mesh.coor();
            S2 c = mesh.conn();
            X.check(throws([&]() { G::Tri3::setOrientation(x, c, o); }) == (o != 1 && o != -1), "Tri3::setOrientation(", o, ")");
            ++X.transitions;
        }
    });
}

// Numbers of layers, elements, nodes and DOFs that do not exist; data of the wrong size.
static void numbers(Explorer& X)
{
    namespace G = GooseFEM::Mesh;
    for (auto& d : std::vector<std::pair<size_t, size_t>>{{1, 1}, {2, 3}, {3, 9}, {9, 27}, {6, 18}, {4, 2}}) {
        std::string name = "FineLayer(" + std::to_string(d.first) + "," + std::to_string(d.second) + ")";
        X.run([&]() { return "selections of " + name; }, [&]() {
            G::Quad4::FineLayer m(d.first, d.second);
            size_t nl = m.elemrow_nelem().size(), nx = m.nelx(), ny = m.nely(), nelem = m.nelem();
            A2 coor = m.coor();
            S2 conn = m.conn();
            for (size_t i = 0; i < nl + 3; ++i) {
                X.check(throws([&]() { m.elementsLayer(i); }) == (i >= nl), "elementsLayer(", i, ") of ", nl, " layers");
                ++X.transitions;
            }
            for (size_t a = 0; a < ny + 3; ++a) {
                for (size_t b = a; b < ny + 3; ++b) {
                    X.check(throws([&]() { m.elementgrid_ravel({a, b}, {}); }) == (a > ny || b > ny), "elementgrid_ravel rows ", a, "-", b, " of ", ny);
                    ++X.transitions;
                }
            }
            for (size_t a = 0; a < nx + 3; ++a) {
                for (size_t b = a; b < nx + 3; ++b) {
                    X.check(throws([&]() { m.elementgrid_ravel({}, {a, b}); }) == (a > nx || b > nx), "elementgrid_ravel columns ", a, "-", b, " of ", nx);
                    ++X.transitions;
                }
            }
            for (size_t a = 0; a < 5; ++a) {
                for (size_t b = 0; b < 5; ++b) {
                    bool ok = (a == 0 || a == 2) && (b == 0 || b == 2);
                    X.check(throws([&]() { m.elementgrid_ravel(std::vector<size_t>(a, 1), std::vector<size_t>(b, 1)); }) == !ok, "elementgrid_ravel of ", a, " and ", b, " numbers");
                    ++X.transitions;
                }
            }
            S1 mid = m.elementsMiddleLayer();
            for (size_t e = 0; e < nelem + 3; ++e) {
                bool ok = e >= mid(0) && e <= mid(mid.size() - 1);
                for (bool periodic : {true, false}) {
                    X.check(throws([&]() { m.elementgrid_around_ravel(e, 1, periodic); }) == !(ok && periodic), "elementgrid_around_ravel(", e, ")");
                    X.check(throws([&]() { m.elementgrid_leftright(e, 1, 0, periodic); }) == !(ok && periodic), "elementgrid_leftright(", e, ")");
                    X.transitions += 2;
                }
            }
            // element maps with one element that does not exist
            S1 map = xt::arange<size_t>(nelem);
            X.check(!throws([&]() { G::elemmap2nodemap(map, coor, conn); }), "elemmap2nodemap rejects the identity");
            for (size_t k = 0; k < nelem; k = 2 * k + 1) {
                for (size_t bad : {nelem, nelem + 1, nelem * 9}) {
                    S1 c = map;
                    c(k) = bad;
                    X.check(throws([&]() { G::elemmap2nodemap(c, coor, conn); }), "elemmap2nodemap accepts element ", bad, " of ", nelem);
                    ++X.transitions;
                }
            }
            // data on the mesh
            G::Quad4::Map::FineLayer2Regular f(m);
            for (size_t n : {size_t(0), size_t(1), nelem - 1, nelem, nelem + 1, 4 * nelem}) {
                A1 v = xt::ones<double>({n});
                A2 w = xt::ones<double>({n, size_t(2)});
                X.check(throws([&]() { f.mapToRegular(v); }) == (n != nelem), "mapToRegular of ", n, " values");
                X.check(throws([&]() { f.mapToRegular(w); }) == (n != nelem), "mapToRegular of ", n, " values");
                X.transitions += 2;
            }
        });
    }
    for (size_t nx : {1, 2, 3}) {
        for (size_t ny : {1, 2}) {
            for (size_t fx : {1, 2}) {
                for (size_t fy : {1, 3}) {
                    X.run([&]() { return "refinement of Quad4(" + std::to_string(nx) + "," + std::to_string(ny) + ") by " + std::to_string(fx) + "," + std::to_string(fy); }, [&]() {
                        G::Quad4::Regular mesh(nx, ny);
                        G::Quad4::Map::RefineRegular r(mesh, fx, fy);
                        size_t nc = nx * ny, nf = nc * fx * fy;
                        for (size_t n = 0; n < nf + 3; ++n) {
                            A1 v = xt::ones<double>({n});
                            A2 v2 = xt::ones<double>({n, size_t(2)});
                            X.check(throws([&]() { r.meanToCoarse(v); }) == (n != nf), "meanToCoarse of ", n, " values");
                            X.check(throws([&]() { r.meanToCoarse(v2); }) == (n != nf), "meanToCoarse of ", n, " values");
                            X.check(throws([&]() { r.mapToFine(v); }) == (n != nc), "mapToFine of ", n, " values");
                            X.check(throws([&]() { r.mapToFine(v2); }) == (n != nc), "mapToFine of ", n, " values");
                            X.transitions += 4;
                            for (size_t k = 0; k < nf + 3; ++k) {
                                A1 w = xt::ones<double>({k});
                                A2 w2 = xt::ones<double>({k, size_t(2)});
                                X.check(throws([&]() { r.averageToCoarse(v, w); }) == (n != nf || k != nf), "averageToCoarse of ", n, " values and ", k, " weights");
                                X.check(throws([&]() { r.averageToCoarse(v2, w2); }) == (n != nf || k != nf), "averageToCoarse of ", n, " values and ", k, " weights");
                                X.transitions += 2;
                            }
                        }
                    });
                }
            }
            X.run([&]() { return "triangles of Tri3(" + std::to_string(nx) + "," + std::to_string(ny) + ")"; }, [&]() {
                G::Tri3::Regular mesh(nx, ny);
                A2 x = mesh.coor();
                S2 c = mesh.conn();
                size_t nnode = x.shape(0), nelem = c.shape(0);
                for (size_t k = 0; k < c.size(); ++k) {
                    for (size_t bad : {nnode, nnode + 1, nnode * 9}) {
                        S2 b = c;
                        b.data()[k] = bad;
                        X.check(throws([&]() { G::Tri3::getOrientation(x, b); }), "getOrientation accepts ", vh::str(b));
                        X.check(throws([&]() { G::Tri3::setOrientation(x, b); }), "setOrientation accepts ", vh::str(b));
                        X.transitions += 2;
                    }
                }
                xt::xtensor<int, 1> val = G::Tri3::getOrientation(x, c);
                for (size_t nd = 1; nd < 4; ++nd) {
                    for (size_t ne = 1; ne < 6; ++ne) {
                        A2 y = xt::zeros<double>({nnode, nd});
                        S2 d = xt::zeros<size_t>({nelem, ne});
                        bool ok = nd == 2 && ne == 3;
                        X.check(throws([&]() { G::Tri3::getOrientation(y, d); }) == !ok, "getOrientation in ", nd, " dimensions with ", ne, " nodes per element");
                        X.check(throws([&]() { G::Tri3::setOrientation(y, d, 1); }) == !ok, "setOrientation in ", nd, " dimensions with ", ne, " nodes per element");
                        X.check(throws([&]() { G::Tri3::setOrientation(y, d, val, 1); }) == !ok, "setOrientation in ", nd, " dimensions with ", ne, " nodes per element");
                        X.transitions += 3;
                    }
                }
                for (size_t n = 0; n < nelem + 3; ++n) {
                    for (int o = -2; o <= 2; ++o) {
                        xt::xtensor<int, 1> v = xt::ones<int>({n});
                        X.check(throws([&]() { G::Tri3::setOrientation(x, c, v, o); }) == (n != nelem || (o != 1 && o != -1)), "setOrientation of ", n, " values, ", o);
                        ++X.transitions;
                    }
                }
            });
        }
    }
    // DOFs that do not tie whole nodes
    for (size_t nnode = 1; nnode <= (X.thorough ? 4u : 3u); ++nnode) {
        for (size_t ndim = 1; ndim <= (nnode > 2 ? 2u : 3u); ++ndim) {
            tuples(nnode * ndim, std::min<size_t>(nnode * ndim, 4), [&](const std::vector<size_t>& t) {
                X.run([&]() { return "nodaltyings of " + std::to_string(nnode) + " nodes in " + std::to_string(ndim) + " dimensions " + vh::str(t); }, [&]() {
                    S2 dofs = make2(nnode, ndim, t);
                    bool ok = true;
                    std::map<size_t, std::vector<size_t>> nodes;
                    for (size_t i = 0; i < nnode; ++i) {
                        for (size_t j = 0; j < ndim; ++j) {
                            nodes[dofs(i, j)].push_back(i);
                        }
                    }
                    for (size_t i = 0; i < nnode; ++i) {
                        for (size_t j = 0; j < ndim; ++j) {
                            ok = ok && nodes[dofs(i, j)] == nodes[dofs(i, 0)];
                        }
                    }
                    X.check(throws([&]() { G::nodaltyings(dofs); }) == !ok, "nodaltyings ", ok ? "rejects " : "accepts ", vh::str(dofs));
                    S2 conn = xt::zeros<size_t>({size_t(1), nnode});
                    X.check(throws([&]() { G::elem2node(conn, dofs); }) == !ok, "elem2node ", ok ? "rejects " : "accepts ", vh::str(dofs));
                    // numbers without a new number
                    size_t n = *std::max_element(t.begin(), t.end()) + 1;
                    G::Renumber r(dofs);
                    G::Reorder o({S1(xt::arange<size_t>(n))});
                    for (size_t k = 0; k < t.size(); ++k) {
                        for (size_t bad : {n, n + 1, 9 * n}) {
                            S2 b = dofs;
                            b.data()[k] = bad;
                            X.check(throws([&]() { r.apply(b); }), "Renumber::apply accepts ", vh::str(b), " for ", vh::str(dofs));
                            X.check(throws([&]() { o.apply(b); }), "Reorder::apply accepts ", vh::str(b), " for ", n, " numbers");
                            X.transitions += 2;
                        }
                    }
                    X.check(!throws([&]() { r.apply(dofs); o.apply(dofs); }), "apply rejects ", vh::str(dofs));
                    X.transitions += 3;
                });
            });
        }
    }
    // node sets and connectivities of meshes that are stitched
    for (size_t nx : {1, 2}) {
        X.run([&]() { return "stitching with nodes that do not exist, Quad4(" + std::to_string(nx) + ",1)"; }, [&]() {
            G::Quad4::Regular a(nx, 1);
            A2 ca = a.coor(), cb = a.coor();
            S2 e = a.conn();
            xt::view(cb, xt::all(), 1) += 1.0;
            S1 top = a.nodesTopEdge(), bot = a.nodesBottomEdge();
            size_t n = ca.shape(0);
            for (size_t bad : {n, n + 1, 9 * n}) {
                for (bool check : {true, false}) {
                    for (size_t k = 0; k < top.size(); ++k) {
                        S1 t = top, b = bot;
                        t(k) = bad;
                        b(k) = bad;
                        X.check(throws([&]() { G::ManualStitch s(ca, e, t, cb, e, bot, check); }), "ManualStitch accepts nodes ", vh::str(t), " of a");
                        X.check(throws([&]() { G::ManualStitch s(ca, e, top, cb, e, b, check); }), "ManualStitch accepts nodes ", vh::str(b), " of b");
                        X.transitions += 2;
                        G::Vstack V(check);
                        X.check(throws([&]() { V.push_back(ca, e, b, top); }) && throws([&]() { V.push_back(ca, e, bot, t); }) && V.nmesh() == 0, "Vstack accepts nodes that do not exist (first mesh)");
                        V.push_back(ca, e, bot, top);
                        A2 before = V.coor();
                        X.check(throws([&]() { V.push_back(ca, e, b, top); }) && throws([&]() { V.push_back(ca, e, bot, t); }), "Vstack accepts nodes that do not exist");
                        X.check(V.nmesh() == 1 && V.coor() == before, "rejected mesh changed the stack");
                        X.check(!throws([&]() { V.push_back(ca, e, bot, top); }), "Vstack rejects a valid mesh");
                        X.transitions += 6;
                    }
                    for (size_t k = 0; k < e.size(); ++k) {
                        S2 c = e;
                        c.data()[k] = bad;
                        X.check(throws([&]() { G::ManualStitch s(ca, c, top, cb, e, bot, check); }), "ManualStitch accepts connectivity ", vh::str(c), " of a");
                        X.check(throws([&]() { G::ManualStitch s(ca, e, top, cb, c, bot, check); }), "ManualStitch accepts connectivity ", vh::str(c), " of b");
                        G::Stitch S;
                        G::Vstack V(check);
                        X.check(throws([&]() { S.push_back(ca, c); }) && throws([&]() { V.push_back(ca, c, bot, top); }), "accepts connectivity ", vh::str(c), " (first mesh)");
                        X.check(S.nmesh() == 0 && V.nmesh() == 0, "rejected mesh is added");
                        S.push_back(ca, e);
                        V.push_back(ca, e, bot, top);
                        X.check(throws([&]() { S.push_back(cb, c); }) && throws([&]() { V.push_back(ca, c, bot, top); }), "accepts connectivity ", vh::str(c));
                        X.check(S.nmesh() == 1 && V.nmesh() == 1, "rejected mesh is added");
                        X.check(!throws([&]() { S.push_back(cb, e); V.push_back(ca, e, bot, top); }), "a valid mesh is rejected");
                        X.transitions += 8;
                    }
                }
            }
        });
    }
    // periodic tyings
    for (size_t nx : {1, 2}) {
        for (size_t ny : {1, 2}) {
            X.run([&]() { return "periodic tyings of Quad4(" + std::to_string(nx) + "," + std::to_string(ny) + ")"; }, [&]() {
                G::Quad4::Regular mesh(nx, ny);
                GooseFEM::Tyings::Control control(mesh.coor(), mesh.dofs());
                A2 coor = control.coor();
                S2 dofs = control.dofs(), cd = control.controlDofs(), ties = mesh.nodesPeriodic();
                size_t nnode = coor.shape(0), ndof = nnode * 2;
                S1 iip = xt::ravel(cd);
                auto make = [&](const A2& x, const S2& d, const S2& c, const S2& t, const S1& p) { return throws([&]() { GooseFEM::Tyings::Periodic P(x, d, c, t, p); }); };
                X.check(!make(coor, dofs, cd, ties, iip), "rejects valid input");
                X.check(!make(coor, dofs, cd, ties, S1(xt::empty<size_t>({0}))), "rejects valid input without prescribed DOFs");
                std::set<size_t> dependent;
                for (size_t i = 0; i < ties.shape(0); ++i) {
                    dependent.insert(dofs(ties(i, 1), 0));
                    dependent.insert(dofs(ties(i, 1), 1));
                }
                for (size_t k = 0; k < iip.size(); ++k) {
                    for (size_t v = 0; v < ndof + 3; ++v) {
                        S1 p = iip;
                        p(k) = v;
                        std::set<size_t> u(p.begin(), p.end());
                        bool ok = v < ndof && u.size() == p.size() && !dependent.count(v);
                        X.check(make(coor, dofs, cd, ties, p) == !ok, ok ? "rejects" : "accepts", " prescribed DOFs ", vh::str(p), " of ", ndof, " with dependent DOFs ", vh::str(dependent));
                        ++X.transitions;
                    }
                }
                for (size_t bad : {ndof, ndof + 1, 9 * ndof}) {
                    for (size_t k = 0; k < cd.size(); ++k) {
                        S2 c = cd;
                        c.data()[k] = bad;
                        X.check(make(coor, dofs, c, ties, iip), "accepts control DOFs ", vh::str(c));
                        ++X.transitions;
                    }
                }
                for (size_t bad : {nnode, nnode + 1, 9 * nnode}) {
                    for (size_t k = 0; k < ties.size(); ++k) {
                        S2 t = ties;
                        t.data()[k] = bad;
                        X.check(make(coor, dofs, cd, t, iip), "accepts tyings ", vh::str(t), " of ", nnode, " nodes");
                        ++X.transitions;
                    }
                }
                // a node that is dependent twice
                for (size_t k = 1; k < ties.shape(0); ++k) {
                    S2 t = ties;
                    t(k, 1) = t(0, 1);
                    X.check(make(coor, dofs, cd, t, S1(xt::empty<size_t>({0}))), "accepts tyings ", vh::str(t));
                    ++X.transitions;
                }
                // shapes
                for (size_t d1 = 1; d1 < 4; ++d1) {
                    for (size_t d2 = 1; d2 < 4; ++d2) {
                        S2 c = xt::zeros<size_t>({d1, d2});
                        X.check(make(coor, dofs, c, ties, S1(xt::empty<size_t>({0}))) == !(d1 == 2 && d2 == 2), "control DOFs of shape ", d1, ",", d2);
                        S2 t = xt::zeros<size_t>({size_t(1), d2});
                        xt::view(t, 0, d2 - 1) = 1;
                        X.check(make(coor, dofs, cd, t, S1(xt::empty<size_t>({0}))) == (d2 != 2), "tyings of shape 1,", d2);
                        S2 q = xt::zeros<size_t>({nnode + d1 - 2, d2});
                        for (size_t i = 0; i < q.size(); ++i) {
                            q.data()[i] = i;
                        }
                        bool ok = d1 == 2 && d2 == 2;
                        X.check(throws([&]() { GooseFEM::Tyings::Control C(coor, q); }) == !ok, "Control with DOFs of shape ", nnode + d1 - 2, ",", d2);
                        if (!ok) {
                            X.check(make(coor, q, S2(xt::zeros<size_t>({2, 2})), ties, S1(xt::empty<size_t>({0}))), "Periodic with DOFs of shape ", nnode + d1 - 2, ",", d2);
                        }
                        X.transitions += 4;
                    }
                }
            });
        }
    }
}

int main(int argc, char** argv)
{
    Explorer X(argc, argv);
    linear(X);
    tied(X);
    element<Kind::quad4>(X);
    element<Kind::planar>(X);
    element<Kind::axisym>(X);
    element<Kind::hex8>(X);
    meshes(X);
    numbers(X);
    return X.finish(
        "all functions of vectors, matrices, solvers and quadratures, of several systems whose sizes differ: every combination of arguments of which each has the valid "
        "shape, any extent plus or minus one, two extents exchanged, or another rank; constructors with every single entry out of range or duplicated; constraint "
        "matrices of all sizes around the valid ones; all numbers of layers, elements, nodes and DOFs up to beyond the last one; all DOFs of up to 3 nodes that do not tie whole nodes");
}
