// I01: all histories of a residual list (GooseFEM::Iterate::StopList) against a model.
#include "world.h"

#include <GooseFEM/Iterate.h>

using namespace vh;
using GooseFEM::Iterate::StopList;

static const double inf = std::numeric_limits<double>::infinity();
static const double nan_ = std::numeric_limits<double>::quiet_NaN();

struct Model {
    std::vector<double> all; // since the last reset
    size_t n;

    std::vector<double> last() const
    {
        std::vector<double> r;
        for (size_t i = 0; i < n; ++i) {
            size_t back = n - i; // 1: most recent
            r.push_back(back > all.size() ? inf : all[all.size() - back]);
        }
        return r;
    }
};

template <class V>
static std::string show(const V& v)
{
    return v.size() > 8 ? std::to_string(v.size()) + " residuals" : str(v);
}

static void compare(Explorer& X, const StopList& s, const Model& m, bool fine = false)
{
    auto e = m.last();
    bool hasnan = false;
    for (auto v : e) {
        hasnan = hasnan || std::isnan(v);
    }
    for (int pass = 0; pass < 2; ++pass) {
        const auto& d = pass ? s.get() : s.data();
        X.check(d.size() == e.size(), "number of residuals is ", d.size(), " expected ", e.size());
        for (size_t i = 0; i < e.size(); ++i) {
            X.check(d[i] == e[i] || (std::isnan(d[i]) && std::isnan(e[i])), "residual ", i, " is ", d[i], " expected ", e[i]);
        }
        if (!hasnan) {
            bool desc = true;
            for (size_t i = 1; i < e.size(); ++i) {
                desc = desc && e[i] <= e[i - 1];
            }
            X.check(s.descending() == desc, "descending is ", !desc, " for ", show(e));
            X.observe(desc);
        }
        for (double tol : {-1.5, 0.0, 0.5, 1.0, 1.5, 2.0, 2.5, 3.0, 4.0, inf}) {
            bool less = true;
            for (auto v : e) {
                less = less && v < tol;
            }
            X.check(s.all_less(tol) == less, "all_less(", tol, ") is ", !less, " for ", show(e));
            X.observe(less);
        }
    }
    uint64_t h = e.size();
    if (fine) { // tolerances next to every residual
        for (double v : e) {
            for (double tol : {v, std::nextafter(v, inf), std::nextafter(v, -inf), v * (1.0 + 1e-9), v * (1.0 - 1e-9), v + 1e-9}) {
                bool less = true;
                for (auto w : e) {
                    less = less && w < tol;
                }
                X.check(s.all_less(tol) == less, "all_less(", tol, ") is ", !less, " for ", show(e));
            }
        }
    }
    for (auto v : e) {
        h = h * 1000003 + (std::isnan(v) ? 77 : std::isinf(v) ? 78 : static_cast<uint64_t>(v * 4.0 + 32.0));
    }
    X.state(h);
}

int run(Explorer& X)
{
    // alphabet of the full histories: insert one of 6 values, reset, reset to 1 .. 4
    static const double v[6] = {0.0, 1.0, 2.0, -2.0, inf, nan_};
    static const char* names[11] = {"insert 0", "insert 1", "insert 2", "insert -2", "insert inf", "insert nan", "reset", "reset(1)", "reset(2)", "reset(3)", "reset(4)"};
    size_t depth = X.thorough ? 6 : 5;
    auto history = [&](size_t n, const std::vector<size_t>& ops, bool copies) {
        StopList s(n), t(2);
        Model m{{}, n};
        for (size_t k = 0; k < ops.size(); ++k) {
            size_t o = ops[k];
            if (copies && k % 2 == 1) { // continue with a copy; the original goes its own way
                StopList c(s);
                if (k % 4 == 3) {
                    t = s;
                    t.roll_insert(123.0);
                    t.reset(5);
                }
                s.roll_insert(-7.0);
                s.reset(3);
                s = c;
            }
            if (o < 6) {
                s.roll_insert(v[o]);
                m.all.push_back(v[o]);
            }
            else {
                m.all.clear();
                if (o == 6) {
                    s.reset();
                }
                else {
                    s.reset(o - 6);
                    m.n = o - 6;
                }
            }
            ++X.transitions;
            compare(X, s, m);
        }
        if (ops.empty()) {
            compare(X, s, m);
        }
    };
    for (size_t n = 1; n <= 4; ++n) {
        for (size_t d = depth; d <= depth; ++d) { // every prefix is compared
            tuples(d, 11, [&](const std::vector<size_t>& ops) {
                X.run([&]() {
                    std::string r = "n=" + std::to_string(n);
                    for (auto o : ops) {
                        r += std::string(", ") + names[o];
                    }
                    return r;
                }, [&]() {
                    history(n, ops, false);
                    if (X.thorough || ops[0] < 6) {
                        history(n, ops, true);
                    }
                });
            });
        }
        X.run([&]() { return "new, n=" + std::to_string(n); }, [&]() { history(n, {}, false); });
    }
    X.run([]() { return std::string("default"); }, [&]() {
        StopList s;
        Model m{{}, 1};
        compare(X, s, m);
        for (double w : v) {
            s.roll_insert(w);
            m.all.push_back(w);
            compare(X, s, m);
        }
    });
    // long histories of insertions: all sequences of two values around a tolerance
    size_t len = X.thorough ? 18 : 14;
    for (size_t n = 1; n <= 7; ++n) {
        tuples(len, 2, [&](const std::vector<size_t>& ops) {
            X.run([&]() { return "n=" + std::to_string(n) + " residuals " + str(ops); }, [&]() {
                StopList s(n);
                Model m{{}, n};
                for (auto o : ops) {
                    s.roll_insert(1.0 + static_cast<double>(o));
                    m.all.push_back(1.0 + static_cast<double>(o));
                    ++X.transitions;
                }
                compare(X, s, m);
                size_t k = n > 1 ? n - 1 : 7; // change of length with a full list, and back
                s.reset(k);
                Model a{{}, k};
                compare(X, s, a);
                s.reset(n + 3);
                Model b{{}, n + 3};
                compare(X, s, b);
            });
        });
    }
    // residuals close to each other and of all magnitudes: all sequences
    static const double w[6] = {1e-12, std::nextafter(1e-12, 1.0), 1e-12 * (1.0 + 1e-9), 1e-300, 5e-324, 1e300};
    for (size_t n = 1; n <= 4; ++n) {
        tuples(X.thorough ? 6 : 5, 6, [&](const std::vector<size_t>& ops) {
            X.run([&]() { return "n=" + std::to_string(n) + " close residuals " + str(ops); }, [&]() {
                StopList s(n);
                Model m{{}, n};
                for (auto o : ops) {
                    s.roll_insert(w[o]);
                    m.all.push_back(w[o]);
                    ++X.transitions;
                    compare(X, s, m, true);
                }
            });
        });
    }
    // long lists: descending, with one residual at every position that is larger, equal or not finite
    for (size_t n : {8, 9, 16, 20, 33, 64, 100}) {
        for (size_t bad = 0; bad <= n; ++bad) {
            for (size_t kind = 0; kind < 4; ++kind) {
                X.run([&]() { return "n=" + std::to_string(n) + " kind " + std::to_string(kind) + " at " + std::to_string(bad); }, [&]() {
                    StopList s(n);
                    Model m{{}, n};
                    for (size_t k = 0; k < 2 * n + 1; ++k) {
                        double v = 1.0 / static_cast<double>(k + 1);
                        if (k % n == bad) {
                            v = kind == 0 ? 1.0 / static_cast<double>(k) * 1.0000001 : kind == 1 ? 1.0 / static_cast<double>(std::max<size_t>(k, 1)) : kind == 2 ? inf : nan_;
                        }
                        s.roll_insert(v);
                        m.all.push_back(v);
                        ++X.transitions;
                        if (k == n || k == n + 1 || k + 1 >= 2 * n) {
                            compare(X, s, m, k == 2 * n);
                        }
                    }
                });
            }
        }
    }
    return X.finish("all histories of depth " + std::to_string(depth) + " over 11 operations for 1 - 4 residuals; all sequences of " + std::to_string(len) + " insertions of two values for 1 - 7 residuals; all sequences of " + std::to_string(X.thorough ? 6 : 5) + " residuals of 6 that are close or extreme; lists of up to 100 residuals with one deviation at every position");
}

int main(int argc, char** argv)
{
    Explorer X(argc, argv);
    return run(X);
}
