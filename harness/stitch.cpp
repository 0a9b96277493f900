// G10: stitching of meshes (manual and automatic); G11: vertical stacking
#include "world.h"

using namespace vh;
namespace M = GooseFEM::Mesh;

struct Sub {
    A2 coor;
    S2 conn;
    std::string name;
    S1 bot, top; // for stacking
};

// Permutation "mode" of n numbers: 0 identity, 1 reversed, 2.. pseudo-random.
static std::vector<size_t> perm(size_t n, size_t mode)
{
    std::vector<size_t> p(n);
    for (size_t i = 0; i < n; ++i) {
        p[i] = mode == 1 ? n - 1 - i : i;
    }
    if (mode >= 2) {
        Lcg g(mode * 31 + n);
        for (size_t i = n; i > 1; --i) {
            std::swap(p[i - 1], p[g.below(i)]);
        }
    }
    return p;
}

using Point = std::vector<double>;

// Mesh of unit cells at integer positions in "ndim" dimensions (2^ndim nodes per element), with permuted node numbers.
static Sub cells(size_t ndim, const std::vector<std::vector<int>>& pos, size_t mode, double offset, const std::vector<std::vector<int>>& unused, const std::string& name)
{
    std::map<std::vector<int>, size_t> id;
    std::vector<std::vector<int>> pts;
    auto node = [&](const std::vector<int>& p) {
        auto it = id.find(p);
        if (it != id.end()) {
            return it->second;
        }
        size_t n = pts.size();
        id[p] = n;
        pts.push_back(p);
        return n;
    };
    std::vector<std::vector<size_t>> conn;
    for (auto& c : pos) {
        std::vector<size_t> e;
        for (size_t k = 0; k < (size_t(1) << ndim); ++k) {
            std::vector<int> p = c;
            size_t g = k ^ (k >> 1); // walk around the cell
            for (size_t d = 0; d < ndim; ++d) {
                p[d] += static_cast<int>((g >> d) & 1);
            }
            e.push_back(node(p));
        }
        conn.push_back(e);
    }
    for (auto& p : unused) {
        node(p);
    }
    auto q = perm(pts.size(), mode);
    Sub s;
    s.name = name;
    s.coor = A2::from_shape({pts.size(), ndim});
    s.conn = S2::from_shape({conn.size(), size_t(1) << ndim});
    for (size_t i = 0; i < pts.size(); ++i) {
        for (size_t d = 0; d < ndim; ++d) {
            s.coor(q[i], d) = pts[i][d] + offset;
        }
    }
    for (size_t e = 0; e < conn.size(); ++e) {
        for (size_t a = 0; a < conn[e].size(); ++a) {
            s.conn(e, a) = q[conn[e][a]];
        }
    }
    return s;
}

// The last element is not connected to the others: it has its own copy of all its nodes.
static Sub split(const Sub& s, bool first, const std::string& name)
{
    Sub r = s;
    r.name = name;
    size_t n = s.coor.shape(0), ne = s.conn.shape(0), nne = s.conn.shape(1), nd = s.coor.shape(1);
    size_t e = first ? 0 : ne - 1;
    r.coor = A2::from_shape({n + nne, nd});
    for (size_t i = 0; i < n; ++i) {
        for (size_t d = 0; d < nd; ++d) {
            r.coor(i, d) = s.coor(i, d);
        }
    }
    for (size_t a = 0; a < nne; ++a) {
        for (size_t d = 0; d < nd; ++d) {
            r.coor(n + a, d) = s.coor(s.conn(e, a), d);
        }
        r.conn(e, a) = n + a;
    }
    return r;
}

static Sub scaled(const Sub& s, double f)
{
    Sub r = s;
    for (auto& v : r.coor) {
        v *= f;
    }
    return r;
}

static std::vector<long> key(const A2& coor, size_t i, double unit)
{
    std::vector<long> k;
    for (size_t d = 0; d < coor.shape(1); ++d) {
        k.push_back(std::lround(coor(i, d) / unit));
    }
    return k;
}

static S1 arr(const std::vector<size_t>& v)
{
    S1 r = S1::from_shape({v.size()});
    std::copy(v.begin(), v.end(), r.begin());
    return r;
}

// All observables of a stitch of "subs": maps, sets, coordinates, connectivity.
// "merged" is the expected number of nodes.
template <class T>
static void observe_stitch(Explorer& X, const T& s, const std::vector<Sub>& subs, size_t nnode, double tol, const std::set<size_t>& skip_position = {})
{
    size_t nelem = 0;
    for (auto& m : subs) {
        nelem += m.conn.shape(0);
    }
    size_t nne = subs[0].conn.shape(1), ndim = subs[0].coor.shape(1);
    X.check(s.nmesh() == subs.size(), "nmesh() is ", s.nmesh());
    X.check(s.nelem() == nelem, "nelem() is ", s.nelem(), " expected ", nelem);
    X.check(s.nnode() == nnode, "nnode() is ", s.nnode(), " expected ", nnode);
    X.check(s.nne() == nne && s.ndim() == ndim, "nne(), ndim()");
    A2 coor = s.coor();
    S2 conn = s.conn();
    X.same_shape(coor.shape(), std::array<size_t, 2>{nnode, ndim}, "coor()");
    X.same_shape(conn.shape(), std::array<size_t, 2>{nelem, nne}, "conn()");
    S2 dofs = s.dofs();
    X.same_shape(dofs.shape(), std::array<size_t, 2>{nnode, ndim}, "dofs()");
    for (size_t i = 0; i < dofs.size(); ++i) {
        X.check(dofs.data()[i] == i, "dofs()");
    }
    std::vector<bool> covered(nnode, false);
    auto maps = s.nodemap();
    auto emaps = s.elemmap();
    X.check(maps.size() == subs.size() && emaps.size() == subs.size(), "nodemap(), elemmap()");
    size_t off = 0;
    for (size_t i = 0; i < subs.size(); ++i) {
        std::string n = "(" + std::to_string(i) + ")";
        S1 map = s.nodemap(i);
        S1 emap = s.elemmap(i);
        X.equal(maps[i], map, "nodemap()[i]");
        X.equal(emaps[i], emap, "elemmap()[i]");
        size_t nn = subs[i].coor.shape(0), ne = subs[i].conn.shape(0);
        X.check(map.size() == nn, "size of nodemap", n);
        X.check(emap.size() == ne, "size of elemmap", n);
        std::set<size_t> used;
        auto covered_before = covered;
        for (size_t j = 0; j < nn; ++j) {
            X.check(map(j) < nnode, "nodemap", n, " of node ", j, " is ", map(j));
            bool once = used.insert(map(j)).second;
            if (!once && i > 0 && skip_position.empty()) {
                // only nodes of this mesh that coincide with each other and with a node of an earlier mesh are merged
                for (size_t l = 0; l < j; ++l) {
                    if (map(l) == map(j)) {
                        X.check(covered_before[map(j)], "nodemap", n, " maps two nodes on ", map(j), ", that belongs to no other mesh");
                        for (size_t d = 0; d < ndim; ++d) {
                            X.check(std::abs(subs[i].coor(l, d) - subs[i].coor(j, d)) <= 2.0 * tol, "nodemap", n, " maps two nodes on ", map(j));
                        }
                    }
                }
                once = true;
            }
            X.check(once || !skip_position.empty(), "nodemap", n, " maps two nodes on ", map(j));
            covered[map(j)] = true;
            if (i > 0 && skip_position.count(j)) {
                continue;
            }
            for (size_t d = 0; d < ndim; ++d) {
                X.check(std::abs(coor(map(j), d) - subs[i].coor(j, d)) <= tol, "node ", j, " of mesh ", i, " is at ", coor(map(j), d), " expected ", subs[i].coor(j, d), " (component ", d, ")");
            }
        }
        for (size_t e = 0; e < ne; ++e) {
            X.check(emap(e) == off + e, "elemmap", n, "(", e, ") is ", emap(e));
            for (size_t a = 0; a < nne; ++a) {
                X.check(conn(off + e, a) == map(subs[i].conn(e, a)), "conn of element ", e, " of mesh ", i, ": ", conn(off + e, a), " expected ", map(subs[i].conn(e, a)));
            }
        }
        off += ne;
        // an empty set
        X.check(S1(s.nodeset(arr({}), i)).size() == 0, "nodeset of an empty set");
        X.check(S1(s.elemset(arr({}), i)).size() == 0, "elemset of an empty set");
        // sets: all, each, a few in another order with a repeat
        for (size_t k = 0; k <= nn + 1; ++k) {
            std::vector<size_t> q;
            if (k < nn) {
                q = {k};
            }
            else {
                q = perm(nn, k - nn);
                q.push_back(q[0]);
            }
            S1 r = s.nodeset(arr(q), i);
            X.check(r.size() == q.size(), "size of nodeset", n);
            for (size_t j = 0; j < q.size(); ++j) {
                X.check(r(j) == map(q[j]), "nodeset", n, " of ", str(q), " is ", str(r));
            }
        }
        for (size_t k = 0; k <= ne + 1; ++k) {
            std::vector<size_t> q;
            if (k < ne) {
                q = {k};
            }
            else {
                q = perm(ne, k - ne);
                q.push_back(q[0]);
            }
            S1 r = s.elemset(arr(q), i);
            X.check(r.size() == q.size(), "size of elemset", n);
            for (size_t j = 0; j < q.size(); ++j) {
                X.check(r(j) == emap(q[j]), "elemset", n, " of ", str(q), " is ", str(r));
            }
        }
    }
    for (size_t i = 0; i < nnode; ++i) {
        X.check(covered[i], "node ", i, " of the result belongs to no mesh");
    }
    X.observe_all(conn);
    X.observe(nnode);
}

// Combined sets of a Stitch.
static void observe_sets(Explorer& X, const M::Stitch& s, const std::vector<Sub>& subs)
{
    for (size_t k = 0; k < 5; ++k) {
        std::vector<S1> ns, es;
        std::set<size_t> nexp;
        std::vector<size_t> eexp;
        for (size_t i = 0; i < subs.size(); ++i) {
            size_t nn = subs[i].coor.shape(0), ne = subs[i].conn.shape(0);
            auto p = perm(nn, k);
            auto q = perm(ne, k);
            if (k == 1) {
                p.resize((nn + 1) / 2);
            }
            if (k == 2) {
                p.resize(1 + i % nn);
                q.resize(1);
                p.push_back(p[0]);
            }
            if (k == 3 && i % 2 == 0) {
                p.clear(); // empty sets of some meshes
            }
            if (k == 4) {
                p.clear();
                q.clear();
            }
            ns.push_back(arr(p));
            es.push_back(arr(q));
            for (auto j : p) {
                nexp.insert(s.nodemap(i)(j));
            }
            for (auto j : q) {
                eexp.push_back(s.elemmap(i)(j));
            }
        }
        S1 n = s.nodeset(ns);
        std::vector<size_t> got(n.begin(), n.end());
        std::sort(got.begin(), got.end());
        X.check(got == std::vector<size_t>(nexp.begin(), nexp.end()), "combined nodeset is ", str(n), " expected ", str(nexp));
        S1 e = s.elemset(es);
        std::vector<size_t> gote(e.begin(), e.end());
        X.check(gote == eexp, "combined elemset is ", str(e), " expected ", str(eexp));
        if (subs.size() == 2) {
            X.equal(s.nodeset({ns[0], ns[1]}), n, "nodeset({a, b})");
            X.equal(s.elemset({es[0], es[1]}), e, "elemset({a, b})");
        }
    }
}

// Number of nodes: a node is new if it coincides with no node of an earlier mesh.
static size_t distinct(const std::vector<Sub>& subs, double unit)
{
    std::set<std::vector<long>> k;
    size_t n = 0;
    for (auto& s : subs) {
        auto before = k;
        for (size_t i = 0; i < s.coor.shape(0); ++i) {
            auto p = key(s.coor, i, unit);
            n += before.count(p) ? 0 : 1;
            k.insert(p);
        }
    }
    return n;
}

#ifdef G10
// All histories of a stitch over an alphabet of meshes.
static void histories(Explorer& X, const std::vector<Sub>& alphabet, size_t depth, double scale, int tolerance, const std::string& what)
{
    double unit = (tolerance == 0 ? 1e-4 : 0.1) * scale;
    double tol = (tolerance == 0 ? 1e-9 : 2e-3) * scale;
    for (size_t n = 1; n <= depth; ++n) {
        tuples(n, alphabet.size(), [&](const std::vector<size_t>& t) {
            X.run([&]() {
                std::string d = "stitch " + what;
                for (auto i : t) {
                    d += " " + alphabet[i].name;
                }
                return d; }, [&]() {
                M::Stitch s0;
                M::Stitch s1(0.0, 1e-2 * scale);
                M::Stitch s2(1e-2, 1e-8);
                M::Stitch s = tolerance == 0 ? s0 : tolerance == 1 ? s1 : s2;
                std::vector<Sub> subs;
                for (size_t k = 0; k < t.size(); ++k) {
                    auto& a = alphabet[t[k]];
                    if (k + 1 == t.size() && k > 0) {
                        // a copy that is extended does not change the original
                        M::Stitch c = s;
                        c.push_back(a.coor, a.conn);
                        observe_stitch(X, s, subs, distinct(subs, unit), tol);
                        s = c;
                    }
                    else {
                        s.push_back(a.coor, a.conn);
                    }
                    ++X.transitions;
                    subs.push_back(a);
                }
                observe_stitch(X, s, subs, distinct(subs, unit), tol);
                observe_sets(X, s, subs);
                X.state(X.hash());
            }, n > 1);
        });
    }
}

// Nodes listed by hand.
static void manual(Explorer& X, const Sub& a, const Sub& b, double offset, bool cracked = false)
{
    std::vector<std::pair<size_t, size_t>> pairs;
    for (size_t i = 0; i < a.coor.shape(0); ++i) {
        for (size_t j = 0; j < b.coor.shape(0); ++j) {
            if (key(a.coor, i, 1e-4) == key(b.coor, j, 1e-4)) {
                pairs.push_back({i, j});
            }
        }
    }
    std::vector<std::vector<size_t>> lists;
    size_t n = std::min<size_t>(pairs.size(), 4);
    // every ordered selection of up to four coinciding pairs; all of them in three orders
    for (size_t bits = 0; bits < (size_t(1) << n); ++bits) {
        std::vector<size_t> l;
        for (size_t i = 0; i < n; ++i) {
            if (bits & (size_t(1) << i)) {
                l.push_back(i);
            }
        }
        do {
            lists.push_back(l);
        } while (std::next_permutation(l.begin(), l.end()));
    }
    for (size_t mode = 0; mode < 3; ++mode) {
        lists.push_back(perm(pairs.size(), mode));
    }
    for (auto& l : lists) {
        X.run([&]() { return "manual stitch " + a.name + " " + b.name + " pairs " + str(l) + " offset " + std::to_string(offset); }, [&]() {
            std::vector<size_t> na, nb;
            std::set<size_t> listed;
            for (auto i : l) {
                na.push_back(pairs[i].first);
                nb.push_back(pairs[i].second);
                listed.insert(pairs[i].second);
            }
            A2 xb = b.coor;
            for (auto& v : xb) {
                v += offset;
            }
            Sub b2 = b;
            b2.coor = xb;
            auto expect = [&](const M::ManualStitch& s0) {
                M::ManualStitch s = s0;
                std::vector<Sub> subs = {a, b2};
                observe_stitch(X, s, subs, a.coor.shape(0) + b.coor.shape(0) - listed.size(), std::abs(offset) + 1e-12);
                S1 m0 = s.nodemap(0), m1 = s.nodemap(1);
                std::set<size_t> first(m0.begin(), m0.end());
                for (size_t k = 0; k < l.size(); ++k) {
                    bool merged = false;
                    for (size_t i = 0; i < l.size(); ++i) {
                        merged = merged || (nb[i] == nb[k] && m1(nb[k]) == m0(na[i]));
                    }
                    X.check(merged, "listed node ", nb[k], " is not merged with ", na[k]);
                }
                for (size_t j = 0; j < b.coor.shape(0); ++j) {
                    X.check(listed.count(j) || !first.count(m1(j)), "node ", j, " is merged but not listed");
                    if (!listed.count(j)) {
                        for (size_t d = 0; d < xb.shape(1); ++d) {
                            X.check(s.coor()(m1(j), d) == xb(j, d), "coordinate of node ", j);
                        }
                    }
                }
            };
            auto rejected = [&](auto&& f) {
                bool thrown = false;
                try {
                    f();
                }
                catch (const CaseFailed&) {
                    throw;
                }
                catch (const std::exception&) {
                    thrown = true;
                }
                return thrown;
            };
            expect(M::ManualStitch(a.coor, a.conn, arr(na), xb, b.conn, arr(nb), false));
            if (std::abs(offset) < 1e-9) {
                expect(M::ManualStitch(a.coor, a.conn, arr(na), xb, b.conn, arr(nb)));
                expect(M::ManualStitch(a.coor, a.conn, arr(na), xb, b.conn, arr(nb), true));
            }
            else {
                expect(M::ManualStitch(a.coor, a.conn, arr(na), xb, b.conn, arr(nb), true, 0.0, 2.0 * offset));
                if (l.size() > 0) {
                    X.check(rejected([&]() { M::ManualStitch(a.coor, a.conn, arr(na), xb, b.conn, arr(nb)); }), "nodes that do not coincide are accepted");
                    X.check(rejected([&]() { M::ManualStitch(a.coor, a.conn, arr(na), xb, b.conn, arr(nb), true, 0.0, 0.5 * offset); }), "nodes further apart than the tolerance are accepted");
                }
            }
            if (offset == 0.0 && l.size() > 1 && listed.size() == l.size() && std::set<size_t>(na.begin(), na.end()).size() == l.size() && !cracked) {
                // wrong pairs: rejected if checked, imposed otherwise
                auto wa = na;
                std::rotate(wa.begin(), wa.begin() + 1, wa.end());
                X.check(rejected([&]() { M::ManualStitch(a.coor, a.conn, arr(wa), xb, b.conn, arr(nb)); }), "nodes that do not coincide are accepted");
                M::ManualStitch s(a.coor, a.conn, arr(wa), xb, b.conn, arr(nb), false);
                observe_stitch(X, s, {a, b}, a.coor.shape(0) + b.coor.shape(0) - l.size(), 1e-12, listed);
                for (size_t k = 0; k < l.size(); ++k) {
                    X.check(s.nodemap(1)(nb[k]) == wa[k], "listed node ", nb[k], " is not merged with ", wa[k]);
                }
            }
        }, !l.empty());
    }
}

static void overlaps(Explorer& X, size_t ndim, size_t na, size_t nb, size_t values, double scale, double jitter, bool tolerant)
{
    tuples(na * ndim, values, [&](const std::vector<size_t>& a) {
        tuples(nb * ndim, values, [&](const std::vector<size_t>& b) {
            X.run([&]() { return "overlapping " + std::to_string(ndim) + "-d " + str(a) + str(b) + " scale " + std::to_string(scale) + " jitter " + std::to_string(jitter); }, [&]() {
                A2 xa = A2::from_shape({na, ndim}), xb = A2::from_shape({nb, ndim});
                for (size_t i = 0; i < a.size(); ++i) {
                    xa.data()[i] = scale * (1.0 + static_cast<double>(a[i]));
                }
                for (size_t i = 0; i < b.size(); ++i) {
                    xb.data()[i] = scale * (1.0 + static_cast<double>(b[i])) + jitter;
                }
                std::vector<std::pair<size_t, size_t>> exp;
                for (size_t i = 0; i < na; ++i) {
                    for (size_t j = 0; j < nb; ++j) {
                        bool same = true;
                        for (size_t d = 0; d < ndim; ++d) {
                            same = same && a[i * ndim + d] == b[j * ndim + d];
                        }
                        if (same) {
                            exp.push_back({i, j});
                        }
                    }
                }
                auto cmp = [&](const S2& r, bool none, const std::string& what) {
                    std::vector<std::pair<size_t, size_t>> got;
                    X.check(r.shape(0) == 2, "shape of overlapping()");
                    for (size_t k = 0; k < r.shape(1); ++k) {
                        got.push_back({r(0, k), r(1, k)});
                    }
                    std::sort(got.begin(), got.end());
                    X.check(none ? got.empty() : got == exp, what, ": ", got.size(), " pairs expected ", none ? 0 : exp.size());
                    X.observe_all(r);
                };
                if (jitter == 0.0) {
                    cmp(M::overlapping(xa, xb), false, "overlapping()");
                    cmp(M::overlapping(xa, xb, 0.0, 0.0), false, "overlapping(exact)");
                    forms(xa, [&](const auto& x, const char* form) { cmp(M::overlapping(x, xb), false, (std::string("overlapping(), first ") + form).c_str()); });
                    forms(xb, [&](const auto& x, const char* form) { cmp(M::overlapping(xa, x), false, (std::string("overlapping(), second ") + form).c_str()); });
                }
                else {
                    cmp(M::overlapping(xa, xb), !tolerant, "overlapping()");
                    cmp(M::overlapping(xa, xb, 0.0, 2.0 * std::abs(jitter)), false, "overlapping(atol)");
                    cmp(M::overlapping(xa, xb, 0.0, 0.5 * std::abs(jitter)), true, "overlapping(small atol)");
                    cmp(M::overlapping(xa, xb, 2.0 * std::abs(jitter / scale), 0.0), false, "overlapping(rtol)");
                    cmp(M::overlapping(xa, xb, 0.1 * std::abs(jitter / scale), 0.0), true, "overlapping(small rtol)");
                }
            });
        });
    });
}

static int run(Explorer& X)
{
    size_t depth = X.thorough ? 5 : 4;
    std::vector<Sub> quads = {
        cells(2, {{0, 0}}, 0, 0, {}, "A"),
        cells(2, {{1, 0}}, 1, 0, {}, "B"),
        cells(2, {{0, 1}}, 2, 0, {}, "C"),
        cells(2, {{0, 0}, {1, 0}}, 3, 0, {}, "D"),
        cells(2, {{2, 0}, {2, 1}, {1, 1}}, 1, 0, {}, "E"),
        cells(2, {{1, 1}}, 0, 1e-10, {}, "F"),
        cells(2, {{4, 4}}, 0, 0, {}, "G"),
        cells(2, {{1, 1}}, 4, 0, {{0, 0}, {5, 2}}, "H"),
    };
    histories(X, quads, depth, 1.0, 0, "2-d");
    auto near = quads;
    near.erase(near.begin() + 2, near.begin() + 4);
    near.push_back(cells(2, {{2, 1}}, 2, 1e-3, {}, "I"));
    for (int tolerance = 0; tolerance < 3; ++tolerance) {
        for (double scale : {1.0, 1000.0, 0.01}) {
            std::vector<Sub> s;
            for (auto& q : near) {
                s.push_back(scaled(q, scale));
            }
            histories(X, s, depth - 1, scale, tolerance, "2-d scale " + std::to_string(scale) + " tolerance " + std::to_string(tolerance));
        }
    }
    std::vector<Sub> hexes = {
        cells(3, {{0, 0, 0}}, 0, 0, {}, "A"),
        cells(3, {{1, 0, 0}}, 1, 0, {}, "B"),
        cells(3, {{0, 1, 0}, {0, 1, 1}}, 2, 0, {}, "C"),
        cells(3, {{1, 1, 1}}, 3, 0, {{0, 0, 0}}, "D"),
    };
    histories(X, hexes, depth, 1.0, 0, "3-d");
    std::vector<Sub> lines = {
        cells(1, {{0}}, 0, 0, {}, "A"),
        cells(1, {{1}}, 1, 0, {}, "B"),
        cells(1, {{2}, {3}}, 2, 0, {}, "C"),
        cells(1, {{0}}, 1, 0, {{3}}, "D"),
    };
    histories(X, lines, depth, 1.0, 0, "1-d");
    // real meshes side by side
    std::vector<Sub> real;
    {
        auto shifted = [](A2 c, double dx, double dy) {
            for (size_t i = 0; i < c.shape(0); ++i) {
                c(i, 0) += dx;
                c(i, 1) += dy;
            }
            return c;
        };
        M::Quad4::Regular r(3, 2);
        M::Quad4::FineLayer f(9, 9);
        real.push_back({r.coor(), r.conn(), "Regular(3,2)", {}, {}});
        real.push_back({shifted(r.coor(), 3, 0), r.conn(), "Regular(3,2)+(3,0)", {}, {}});
        real.push_back({shifted(r.coor(), 1, 1), r.conn(), "Regular(3,2)+(1,1)", {}, {}});
        real.push_back({shifted(f.coor(), 0, 2), f.conn(), "FineLayer(9,9)+(0,2)", {}, {}});
        real.push_back({shifted(f.coor(), 0, 11), f.conn(), "FineLayer(9,9)+(0,11)", {}, {}});
    }
    histories(X, real, 3, 1.0, 0, "real");
    // negative coordinates, and around the origin
    for (double dx : {-7.0, -2.5}) {
        std::vector<Sub> neg;
        for (auto& m : real) {
            neg.push_back(m);
            for (auto& v : neg.back().coor) {
                v += dx;
            }
        }
        histories(X, neg, 2, 1.0, 0, "real " + std::to_string(dx));
        std::vector<Sub> n2;
        for (auto& m : near) {
            n2.push_back(m);
            for (auto& v : n2.back().coor) {
                v += dx;
            }
        }
        for (int tolerance = 0; tolerance < 2; ++tolerance) {
            histories(X, n2, 2, 1.0, tolerance, "2-d " + std::to_string(dx) + " tolerance " + std::to_string(tolerance));
        }
    }
    // larger meshes
    {
        std::vector<Sub> large;
        auto shifted = [](A2 c, double dx, double dy) {
            for (size_t i = 0; i < c.shape(0); ++i) {
                c(i, 0) += dx;
                c(i, 1) += dy;
            }
            return c;
        };
        M::Quad4::Regular r(18, 11);
        M::Quad4::FineLayer f(18, 31);
        large.push_back({r.coor(), r.conn(), "Regular(18,11)", {}, {}});
        large.push_back({shifted(r.coor(), 18, 0), r.conn(), "Regular(18,11)+(18,0)", {}, {}});
        large.push_back({shifted(f.coor(), 0, 11), f.conn(), "FineLayer(18,31)+(0,11)", {}, {}});
        large.push_back({shifted(r.coor(), 18, 11), r.conn(), "Regular(18,11)+(18,11)", {}, {}});
        histories(X, large, X.thorough ? 3 : 2, 1.0, 0, "large");
        M::Hex8::Regular h(4, 5, 3);
        A2 hx = h.coor();
        for (size_t i = 0; i < hx.shape(0); ++i) {
            hx(i, 1) += 5.0;
        }
        std::vector<Sub> h8 = {{h.coor(), h.conn(), "Hex8(4,5,3)", {}, {}}, {hx, h.conn(), "Hex8(4,5,3)+(0,5,0)", {}, {}}};
        histories(X, h8, 2, 1.0, 0, "large 3-d");
    }
    // meshes with nodes that coincide with each other
    std::vector<Sub> cracked = {
        quads[0],
        split(quads[3], false, "D|"),
        split(quads[4], true, "|E"),
        cells(2, {{1, 1}, {0, 1}}, 2, 0, {}, "J"),
        split(cells(2, {{0, 0}, {1, 0}, {1, 1}}, 2, 0, {}, "K"), false, "K|"),
    };
    histories(X, cracked, depth, 1.0, 0, "2-d coinciding nodes");
    for (auto& a : cracked) {
        for (auto& b : cracked) {
            manual(X, a, b, 0.0, true);
        }
    }
    std::vector<Sub> cracked1 = {lines[0], split(lines[2], false, "C|"), split(lines[2], true, "|C"), cells(1, {{1}, {2}}, 1, 0, {}, "E")};
    histories(X, cracked1, depth, 1.0, 0, "1-d coinciding nodes");
    // overlap by hand
    std::vector<Sub> pool = {quads[0], quads[1], quads[2], quads[3], quads[4], quads[7]};
    for (auto& a : pool) {
        for (auto& b : pool) {
            for (double offset : {0.0, 1e-10, 1e-3}) {
                manual(X, a, b, offset);
            }
        }
    }
    for (auto& a : hexes) {
        for (auto& b : hexes) {
            manual(X, a, b, 0.0);
        }
    }
    for (auto& a : lines) {
        for (auto& b : lines) {
            manual(X, a, b, 0.0);
        }
    }
    // detection of overlap
    for (size_t na = 1; na <= 3; ++na) {
        for (size_t nb = 1; nb <= 3; ++nb) {
            overlaps(X, 1, na, nb, 3, 1.0, 0.0, true);
            overlaps(X, 1, na, nb, 2, 1000.0, 1e-3, true);
            overlaps(X, 1, na, nb, 2, 1.0, 1e-3, false);
            overlaps(X, 1, na, nb, 3, -1.0, 0.0, true);
            overlaps(X, 1, na, nb, 2, -1000.0, 1e-3, true);
            overlaps(X, 1, na, nb, 2, -1.0, -1e-3, false);
            if (na * nb <= (X.thorough ? 9u : 4u)) {
                overlaps(X, 2, na, nb, 2, 1.0, 0.0, true);
                overlaps(X, 2, na, nb, 2, 1.0, -1e-3, false);
            }
        }
    }
    overlaps(X, 3, 1, 2, 2, 1.0, 0.0, true);
    overlaps(X, 3, 2, 1, 2, 1.0, 1e-3, false);
    return X.finish("all histories of up to " + std::to_string(depth) + " meshes over alphabets of 8 quadrilateral (permuted and unused nodes, nearly coinciding), 4 hexahedral and 4 line meshes, of up to " + std::to_string(depth - 1) +
                    " over 7 meshes at 3 scales and 3 tolerances, and of up to 3 over 5 real meshes (2 at negative coordinates; 2 over larger ones), and over 5 and 4 meshes of which some have nodes that coincide with each other; stitching by hand: all ordered selections of up to 4 coinciding pairs, also not coinciding ones; overlap of all sets of up to 3 points on small grids");
}
#endif

#ifdef G11
static Sub strip(size_t nx, size_t ny, double h, double x0, double y0, size_t mode, const std::string& name)
{
    M::Quad4::Regular r(nx, ny, h);
    auto q = perm(r.nnode(), mode);
    Sub s;
    s.name = name;
    s.coor = A2::from_shape({r.nnode(), size_t(2)});
    s.conn = r.conn();
    A2 c = r.coor();
    for (size_t i = 0; i < r.nnode(); ++i) {
        s.coor(q[i], 0) = c(i, 0) + x0;
        s.coor(q[i], 1) = c(i, 1) + y0;
    }
    for (auto& n : s.conn) {
        n = q[n];
    }
    s.bot = r.nodesBottomEdge();
    s.top = r.nodesTopEdge();
    for (auto& n : s.bot) {
        n = q[n];
    }
    for (auto& n : s.top) {
        n = q[n];
    }
    return s;
}

static int run(Explorer& X)
{
    size_t depth = X.thorough ? 5 : 4;
    std::vector<Sub> alphabet = {
        strip(2, 1, 1.0, 0, 0, 0, "A(2x1)"),
        strip(2, 2, 1.0, 0, 0, 2, "B(2x2,permuted)"),
        strip(2, 3, 1.0, 0, -1.5, 0, "C(2x3,bottom at -1.5)"),
        strip(2, 1, 1.0, 0, 4, 1, "D(2x1,bottom at 4,reversed)"),
        strip(2, 1, 1.0, 0, 0, 0, "E(2x1,corners only)"),
    };
    {
        // only the corners are listed, and the mesh has a node no element uses
        Sub& e = alphabet[4];
        A2 c = A2::from_shape({e.coor.shape(0) + 1, size_t(2)});
        for (size_t i = 0; i < e.coor.size(); ++i) {
            c.data()[i] = e.coor.data()[i];
        }
        c(e.coor.shape(0), 0) = 0.5;
        c(e.coor.shape(0), 1) = 0.5;
        e.coor = c;
    }
    for (int order = 0; order < 2; ++order) {
        for (int list = 0; list < 2; ++list) {
            for (size_t n = 1; n <= depth; ++n) {
                tuples(n, alphabet.size(), [&](const std::vector<size_t>& t) {
                    X.run([&]() {
                        std::string d = "stack order " + std::to_string(order) + " list " + std::to_string(list);
                        for (auto i : t) {
                            d += " " + alphabet[i].name;
                        }
                        return d; }, [&]() {
                        M::Vstack s;
                        M::Vstack u(false);
                        M::Vstack w(true, 0.0, 1e-6);
                        std::vector<Sub> subs;
                        double y = 0.0;
                        size_t nnode = 0;
                        for (size_t k = 0; k < t.size(); ++k) {
                            Sub a = alphabet[t[k]];
                            if (list == 1) {
                                // merge the corners only
                                a.bot = arr({a.bot(0), a.bot(2)});
                                a.top = arr({a.top(0), a.top(2)});
                            }
                            if (order == 1) {
                                std::reverse(a.bot.begin(), a.bot.end());
                                std::reverse(a.top.begin(), a.top.end());
                            }
                            s.push_back(a.coor, a.conn, a.bot, a.top);
                            u.push_back(a.coor, a.conn, a.bot, a.top);
                            w.push_back(a.coor, a.conn, a.bot, a.top);
                            ++X.transitions;
                            // expected position
                            double lo = a.coor(0, 1), hi = a.coor(0, 1);
                            for (size_t i = 0; i < a.coor.shape(0); ++i) {
                                lo = std::min(lo, a.coor(i, 1));
                                hi = std::max(hi, a.coor(i, 1));
                            }
                            double shift = k == 0 ? 0.0 : y - lo;
                            for (size_t i = 0; i < a.coor.shape(0); ++i) {
                                a.coor(i, 1) += shift;
                            }
                            y = hi + shift;
                            nnode += a.coor.shape(0) - (k == 0 ? 0 : a.bot.size());
                            subs.push_back(a);
                        }
                        for (const M::Vstack* v : {&s, &u, &w}) {
                            observe_stitch(X, *v, subs, nnode, 1e-9);
                            observe_sets(X, *v, subs);
                            for (size_t k = 1; k < subs.size(); ++k) {
                                S1 lower = v->nodeset(subs[k - 1].top, k - 1);
                                S1 upper = v->nodeset(subs[k].bot, k);
                                X.equal(upper, lower, "bottom nodes of a mesh against the top nodes of the mesh below");
                            }
                        }
                        X.state(X.hash());
                    }, n > 1);
                });
            }
        }
    }
    // meshes that do not fit are rejected unless the check is switched off
    for (double dx : {0.0, 1e-10, 0.25, 1e-3}) {
        for (size_t n = 1; n <= 3; ++n) {
            X.run([&]() { return "misfit of " + std::to_string(dx) + " above " + std::to_string(n); }, [&]() {
                Sub a = alphabet[0], b = strip(2, 1, 1.0, dx, 0, 0, "misfit");
                M::Vstack s, u(false), w(true, 0.0, 1e-2);
                for (size_t i = 0; i < n; ++i) {
                    s.push_back(a.coor, a.conn, a.bot, a.top);
                    u.push_back(a.coor, a.conn, a.bot, a.top);
                    w.push_back(a.coor, a.conn, a.bot, a.top);
                }
                auto rejects = [&](M::Vstack& v) {
                    try {
                        v.push_back(b.coor, b.conn, b.bot, b.top);
                    }
                    catch (const std::exception&) {
                        return true;
                    }
                    return false;
                };
                X.check(rejects(s) == (dx > 1e-6), "Vstack(): position of the overlapping nodes");
                X.check(rejects(w) == (dx > 1e-2), "Vstack(true, 0, 1e-2): position of the overlapping nodes");
                X.check(!rejects(u), "Vstack(false) checks the position");
                X.check(s.nmesh() == n + (dx < 1e-6), "a rejected mesh is part of the stack");
            });
        }
    }
    // real meshes, three dimensions
    for (size_t nx : {1, 3, 9, 36}) {
        for (size_t nz : {0, 1, 2}) {
            tuples(3, 3, [&](const std::vector<size_t>& t) {
                X.run([&]() { return "stack of real meshes " + std::to_string(nx) + "," + std::to_string(nz) + str(t); }, [&]() {
                    M::Vstack s;
                    std::vector<Sub> subs;
                    double y = 0;
                    size_t nnode = 0;
                    for (size_t k = 0; k < 3; ++k) {
                        Sub a;
                        if (nz == 0) {
                            if (t[k] == 0) {
                                M::Quad4::Regular m(nx, 1 + k);
                                a = {m.coor(), m.conn(), "", m.nodesBottomEdge(), m.nodesTopEdge()};
                            }
                            else if (t[k] == 1) {
                                M::Quad4::FineLayer m(nx, 5);
                                if (m.elemrow_nhx()(0) != 1) {
                                    return;
                                }
                                a = {m.coor(), m.conn(), "", m.nodesBottomEdge(), m.nodesTopEdge()};
                            }
                            else {
                                M::Quad4::Regular m(nx, 2);
                                a = {m.coor(), m.conn(), "", m.nodesBottomEdge(), m.nodesTopEdge()};
                                for (size_t i = 0; i < a.coor.shape(0); ++i) {
                                    a.coor(i, 1) *= 0.37;
                                }
                            }
                        }
                        else {
                            M::Hex8::Regular m(std::min<size_t>(nx, 5), 1 + t[k], nz);
                            a = {m.coor(), m.conn(), "", m.nodesBottom(), m.nodesTop()};
                        }
                        s.push_back(a.coor, a.conn, a.bot, a.top);
                        ++X.transitions;
                        double hi = 0;
                        for (size_t i = 0; i < a.coor.shape(0); ++i) {
                            hi = std::max(hi, a.coor(i, 1));
                            a.coor(i, 1) += y;
                        }
                        y += hi;
                        nnode += a.coor.shape(0) - (k == 0 ? 0 : a.bot.size());
                        subs.push_back(a);
                    }
                    observe_stitch(X, s, subs, nnode, 1e-9);
                    observe_sets(X, s, subs);
                });
            });
        }
    }
    return X.finish("all stacks of up to " + std::to_string(depth) + " meshes over an alphabet of 5 (permuted nodes, bottom at other heights, unused nodes), with complete or partial lists of nodes in two orders; misfits of 4 sizes; stacks of 3 real meshes in two and three dimensions");
}
#endif

int main(int argc, char** argv)
{
    Explorer X(argc, argv);
    return run(X);
}
