// C01: every parallel region of the library executed under a controlled scheduler.
//
// This file provides the OpenMP runtime (libgomp entry points) and the memory-access hooks of -fsanitize=thread, so that the
// real code, compiled with OpenMP, runs on virtual threads (one stack each, one at a time). Per region all memory accesses of
// all threads are recorded. Two accesses of different threads conflict if they overlap, at least one writes, and they are not
// ordered by a barrier, both atomic, or both inside the same critical section. Without conflicts all interleavings of the
// region are equivalent to the executed one (they form one Mazurkiewicz trace), so that the comparison with the serial build
// decides all of them. Threads storing the same value to the same location (and nobody else reading it) also commute.
// Regions that synchronise (critical, atomic, dynamic schedules) are explored over all schedules with up to two preemptions
// at synchronisation points.
#include "omp_runtime.h"

extern "C" size_t suite_size(int);
extern "C" const char* suite_name(size_t);
extern "C" void suite_run(size_t, std::vector<double>*);

// ---------------------------------------------------------------- exploration
using namespace vh;

struct Serial {
    size_t (*size)(int);
    const char* (*name)(size_t);
    void (*run)(size_t, std::vector<double>*);
};

static std::string guarded(void (*f)(size_t, std::vector<double>*), size_t i, std::vector<double>& out)
{
    try {
        f(i, &out);
        return "";
    }
    catch (const std::exception& e) {
        return std::string("exception ") + e.what();
    }
}

int main(int argc, char** argv)
{
    std::string path = argv[0];
    path += ".serial.so";
    if (!path.empty() && path[0] != '/') {
        path = "./" + path;
    }
    void* h = dlopen(path.c_str(), RTLD_NOW | RTLD_LOCAL);
    if (!h) {
        std::cerr << dlerror() << "\n";
        return 2;
    }
    Serial S;
    S.size = reinterpret_cast<size_t (*)(int)>(dlsym(h, "suite_size"));
    S.name = reinterpret_cast<const char* (*)(size_t)>(dlsym(h, "suite_name"));
    S.run = reinterpret_cast<void (*)(size_t, std::vector<double>*)>(dlsym(h, "suite_run"));
    Explorer X(argc, argv);
    size_t n = S.size(X.thorough), m = suite_size(X.thorough);
    if (n != m || n == 0) {
        std::cerr << "suites differ\n";
        return 2;
    }
    std::vector<int> teams = X.thorough ? std::vector<int>{1, 2, 3, 4, 5, 7, 8, 16, 64} : std::vector<int>{2, 3, 64};
    for (size_t i = 0; i < n; ++i) {
        for (int team : teams) {
            X.run([&]() { return std::string(suite_name(i)) + ", " + std::to_string(team) + " threads"; }, [&]() {
                std::vector<double> ref, out;
                std::string e = guarded(S.run, i, ref);
                X.check(e.empty(), "serial build: ", e);
                auto execute = [&](int policy, const std::vector<int>& choices) {
                    R.team = team;
                    R.policy = policy;
                    R.choices = choices;
                    R.violation.clear();
                    R.regions = R.accesses = R.switches = R.sync = R.conflicts = R.same_stores = 0;
                    R.locknames.clear();
                    std::string g = guarded(suite_run, i, out);
                    ++X.counts["schedules executed"];
                    X.transitions += R.accesses;
                    X.counts["parallel regions"] += R.regions;
                    X.counts["pairs of equal stores"] += R.same_stores;
                    X.check(g.empty(), "parallel build: ", g);
                    X.check(R.violation.empty(), R.violation);
                    X.check(out.size() == ref.size(), "size of the results differs from the serial build");
                    for (size_t k = 0; k < ref.size(); ++k) {
                        X.checks++;
                        if (!(std::abs(out[k] - ref[k]) <= 1e-11 * (1.0 + std::abs(ref[k])) || out[k] == ref[k] ||
                              (std::isnan(out[k]) && std::isnan(ref[k])))) {
                            std::ostringstream s;
                            s.precision(17);
                            s << "result " << k << " is " << out[k] << " but " << ref[k] << " in the serial build (order of threads " << policy << ")";
                            X.fail(s.str());
                        }
                        X.observe(out[k]);
                    }
                };
                // one representative of the trace; the other orders confirm the equivalence
                execute(0, {});
                size_t sync = R.sync;
                for (int policy = 1; policy <= (X.thorough ? 4 : 2); ++policy) {
                    execute(policy, {});
                }
                // synchronising regions: all schedules with one or two preemptions
                size_t cap = X.thorough ? 1000 : 60, used = 0;
                for (size_t a = 0; a < sync && used < cap; ++a) {
                    std::vector<int> c(a + 1, 0);
                    c[a] = 1;
                    execute(0, c);
                    ++used;
                }
                for (size_t a = 0; a < sync && used < cap; ++a) {
                    for (size_t b = a + 1; b < sync + 4 && used < cap; ++b) {
                        std::vector<int> d(b + 1, 0);
                        d[a] = 1;
                        d[b] = 1;
                        execute(0, d);
                        ++used;
                    }
                }
                if (used >= cap) {
                    X.capped = true;
                }
                X.state(X.hash());
            });
        }
    }
    return X.finish(std::to_string(n) + " systems (all functions with parallel loops), teams of " + str(teams) +
                    " threads (64: one iteration per thread for all loops up to 64), 3 (5) orders of the threads each");
}
