// C02: operations that users may run concurrently (con_suite.cpp), executed pairwise on two threads under a controlled
// scheduler. All memory accesses are recorded; without a conflict all interleavings of the pair are equivalent to the executed
// one. Pairs that synchronise (atomics) are explored over all schedules with up to two preemptions at these points.
#include "omp_runtime.h"

extern "C" size_t con_size(int);
extern "C" const char* con_name(size_t);
extern "C" size_t con_open(size_t);
extern "C" const char* con_op(size_t);
extern "C" void con_run(size_t, std::vector<double>*);

using namespace vh;

struct Task {
    std::vector<size_t> ops;
    std::vector<std::vector<double>>* out;
    std::vector<std::string>* error;
};

static std::string guarded(size_t op, std::vector<double>& out)
{
    out.clear();
    try {
        con_run(op, &out);
        return "";
    }
    catch (const std::exception& e) {
        return std::string("exception ") + e.what();
    }
}

static void body(void* p)
{
    Task& t = *static_cast<Task*>(p);
    int i = R.cur;
    (*t.error)[i] = guarded(t.ops[i], (*t.out)[i]);
}

static bool same(const std::vector<double>& a, const std::vector<double>& b)
{
    return a.size() == b.size() && (a.empty() || std::memcmp(a.data(), b.data(), a.size() * sizeof(double)) == 0);
}

int main(int argc, char** argv)
{
    Explorer X(argc, argv);
    size_t n = con_size(X.thorough), nops = 0, warm = n;
    std::vector<std::vector<double>> ref;
    for (size_t g = 0; g < n; ++g) {
        size_t m = con_open(g);
        nops += m;
        std::vector<std::string> names;
        for (size_t a = 0; a < m; ++a) {
            names.push_back(con_op(a));
        }
        for (size_t a = 0; a < m; ++a) {
            X.run([&]() { return std::string(con_name(g)) + ": " + names[a] + " with every later operation"; }, [&]() {
                // results of every operation alone (this also initialises what is initialised once per program)
                if (warm != g) {
                    warm = n;
                    ref.assign(m, {});
                    con_open(g);
                    for (size_t k = 0; k < m; ++k) {
                        std::string e = guarded(k, ref[k]);
                        X.check(e.empty(), names[k], " alone: ", e);
                    }
                    warm = g;
                }
                auto execute = [&](const std::vector<size_t>& ops, int policy, const std::vector<int>& choices, bool after) {
                    con_open(g); // fresh shared objects
                    std::vector<std::vector<double>> out(ops.size());
                    std::vector<std::string> error(ops.size());
                    Task t{ops, &out, &error};
                    R.policy = policy;
                    R.choices = choices;
                    R.violation.clear();
                    R.regions = R.accesses = R.switches = R.sync = R.conflicts = R.same_stores = 0;
                    R.locknames.clear();
                    mc::region(body, &t, static_cast<unsigned>(ops.size()));
                    ++X.counts["schedules executed"];
                    X.transitions += R.accesses;
                    std::string what;
                    for (auto o : ops) {
                        what += (what.empty() ? "" : " || ") + names[o];
                    }
                    X.check(R.violation.empty(), what, ": ", R.violation);
                    for (size_t i = 0; i < ops.size(); ++i) {
                        X.check(error[i].empty(), what, ": thread ", i, ": ", error[i]);
                        X.check(same(out[i], ref[ops[i]]), what, ": thread ", i, " gets another result than alone");
                        for (auto v : out[i]) {
                            X.observe(v);
                        }
                    }
                    if (after) { // and the shared objects are as before
                        std::vector<double> o;
                        for (size_t k = 0; k < m; ++k) {
                            std::string e = guarded(k, o);
                            X.check(e.empty() && same(o, ref[k]), "after ", what, ": ", names[k], " changed ", e);
                        }
                    }
                };
                for (size_t b = a; b < m; ++b) {
                    execute({a, b}, 0, {}, a == b);
                    size_t sync = R.sync;
                    execute({a, b}, 1, {}, false);
                    for (size_t i = 0; i < sync; ++i) {
                        std::vector<int> c(i + 1, 0);
                        c[i] = 1;
                        execute({a, b}, 0, c, false);
                        for (size_t j = i + 1; j < sync + 2; ++j) {
                            std::vector<int> d(j + 1, 0);
                            d[i] = d[j] = 1;
                            execute({a, b}, 0, d, false);
                        }
                    }
                    ++X.counts["pairs of operations"];
                    if (X.thorough) { // three threads
                        execute({a, b, a}, 0, {}, false);
                    }
                }
                X.state(X.hash());
            });
        }
    }
    return X.finish(std::to_string(n) + " sets of shared objects with " + std::to_string(nops) + " operations; all pairs of operations of a set on two threads" +
                    (X.thorough ? " and with a third one" : "") + ", each in all interleavings of conflicting accesses (schedules with up to two preemptions where they synchronise)");
}
