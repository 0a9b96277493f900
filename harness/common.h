// Small explorer runtime shared by all harnesses: deterministic enumeration of cases with sharding,
// replay by case index, crash/hang attribution, counting of evaluations and of distinct outcomes.
#ifndef VERIF_COMMON_H
#define VERIF_COMMON_H

#define GOOSEFEM_EIGEN
#define GOOSEFEM_DISABLE_WARNING
#ifndef VERIF_NO_ASSERT
#define GOOSEFEM_ENABLE_ASSERT
#endif

#include <array>
#include <cmath>
#include <csignal>
#include <cstdint>
#include <cstdio>
#include <cstring>
#include <exception>
#include <fcntl.h>
#include <fstream>
#include <functional>
#include <iostream>
#include <map>
#include <set>
#include <sstream>
#include <string>
#include <sys/mman.h>
#include <sys/resource.h>
#include <sys/time.h>
#include <unistd.h>
#include <unordered_set>
#include <vector>

namespace vh {

struct Progress {
    volatile uint64_t index;
    volatile uint64_t beat;
    char note[1024];
};

inline Progress*& progress()
{
    static Progress* p = nullptr;
    return p;
}

inline void watchdog(int)
{
    static uint64_t last = ~0ull;
    static int same = 0;
    uint64_t now = progress()->beat;
    if (now == last) {
        if (++same >= 12) { // 12 * 5 s without any progress
            const char m[] = "HANG\n";
            if (write(2, m, sizeof(m) - 1) < 0) {
            }
            _exit(97);
        }
    }
    else {
        same = 0;
        last = now;
    }
}

inline std::string jstr(const std::string& s)
{
    std::string r = "\"";
    for (char c : s) {
        if (c == '"' || c == '\\') {
            r += '\\';
            r += c;
        }
        else if (c == '\n') {
            r += "\\n";
        }
        else if (static_cast<unsigned char>(c) < 32) {
            r += ' ';
        }
        else {
            r += c;
        }
    }
    return r + "\"";
}

struct Failure {
    uint64_t index;
    std::string desc, msg, tag;
};

// Thrown by Explorer::fail to leave the current case.
struct CaseFailed {};

class Explorer {
public:
    bool thorough = false;
    bool deep = false; // bounds beyond "thorough"
    bool verbose = false;
    uint64_t shard = 0, nshard = 1;
    int64_t only = -1;
    std::string out = "/dev/stdout";

    uint64_t counter = 0; // case counter (identical in all shards)
    uint64_t evaluations = 0, nontrivial = 0, checks = 0, transitions = 0;
    std::unordered_set<uint64_t> outcomes, states;
    std::vector<std::string> samples;
    std::vector<Failure> failures;
    std::map<std::string, uint64_t> counts;
    bool capped = false;

    Explorer(int argc, char** argv)
    {
        std::string prog;
        for (int i = 1; i < argc; ++i) {
            std::string a = argv[i];
            auto val = [&]() { return std::string(argv[++i]); };
            if (a == "--thorough") {
                thorough = true;
            }
            else if (a == "--deep") {
                thorough = true;
                deep = true;
            }
            else if (a == "--shard") {
                std::string v = val();
                shard = std::stoull(v.substr(0, v.find('/')));
                nshard = std::stoull(v.substr(v.find('/') + 1));
            }
            else if (a == "--only") {
                only = std::stoll(val());
            }
            else if (a == "--out") {
                out = val();
            }
            else if (a == "--progress") {
                prog = val();
            }
            else if (a == "--verbose") {
                verbose = true;
            }
            else {
                std::cerr << "unknown argument " << a << "\n";
                std::exit(2);
            }
        }
        if (prog.empty()) {
            progress() = static_cast<Progress*>(
                mmap(nullptr, sizeof(Progress), PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0));
        }
        else {
            int fd = open(prog.c_str(), O_RDWR | O_CREAT, 0600);
            if (fd < 0 || ftruncate(fd, sizeof(Progress)) != 0) {
                std::exit(2);
            }
            progress() = static_cast<Progress*>(
                mmap(nullptr, sizeof(Progress), PROT_READ | PROT_WRITE, MAP_SHARED, fd, 0));
        }
        progress()->index = ~0ull;
        signal(SIGALRM, watchdog);
        struct itimerval t = {{5, 0}, {5, 0}};
        setitimer(ITIMER_REAL, &t, nullptr);
    }

    // Start the next case of the enumeration. Returns true if it has to be executed by this process.
    bool next()
    {
        uint64_t i = counter++;
        if (only >= 0) {
            if (i != static_cast<uint64_t>(only)) {
                return false;
            }
        }
        else if (i % nshard != shard || failures.size() >= 4) {
            progress()->beat = progress()->beat + 1;
            return false;
        }
        m_index = i;
        m_desc = nullptr;
        m_h = 1469598103934665603ull;
        progress()->index = i;
        progress()->beat = progress()->beat + 1;
        ++evaluations;
        return true;
    }

    void beat()
    {
        progress()->beat = progress()->beat + 1;
    }

    // Execute one case: exceptions of the code under test are violations (all inputs are valid).
    template <class D, class F>
    void run(D&& desc, F&& f, bool is_nontrivial = true)
    {
        if (!next()) {
            return;
        }
        m_desc = [&]() { return std::string(desc()); };
        if (is_nontrivial) {
            ++nontrivial;
        }
        try {
            f();
        }
        catch (const CaseFailed&) {
        }
        catch (const std::exception& e) {
            record(std::string("unexpected exception: ") + e.what(), "exception");
        }
        outcomes.insert(m_h);
        if (samples.size() < 3 || (only >= 0)) {
            if (samples.empty() || counter > 50 * samples.size() * samples.size()) {
                samples.push_back(m_desc());
            }
        }
        if (verbose) {
            std::cerr << "case " << m_index << ": " << m_desc() << "\n";
        }
        m_desc = nullptr;
    }

    // Record an observation of the case (for the number of distinct outcomes).
    template <class T>
    void observe(const T& v)
    {
        uint64_t b = 0;
        if constexpr (std::is_same<T, double>::value) {
            double q = std::round(v * 1e6);
            std::memcpy(&b, &q, sizeof(double));
        }
        else {
            b = static_cast<uint64_t>(v);
        }
        m_h ^= b + 0x9e3779b97f4a7c15ull;
        m_h *= 1099511628211ull;
        m_h ^= m_h >> 29;
    }

    template <class T>
    void observe_all(const T& a)
    {
        for (auto& v : a) {
            observe(v);
        }
    }

    uint64_t hash() const
    {
        return m_h;
    }

    void record(const std::string& msg, const std::string& tag = "")
    {
        failures.push_back({m_index, m_desc ? m_desc() : std::string("?"), msg, tag});
        std::cerr << "FAIL case " << m_index << ": " << (m_desc ? m_desc() : std::string("?")) << "\n   " << msg
                  << "\n";
    }

    [[noreturn]] void fail(const std::string& msg, const std::string& tag = "")
    {
        record(msg, tag);
        throw CaseFailed();
    }

    template <class... A>
    void check(bool ok, const A&... a)
    {
        ++checks;
        if (!ok) {
            std::ostringstream s;
            s.precision(17);
            (s << ... << a);
            fail(s.str());
        }
    }

    template <class S1, class S2>
    void same_shape(const S1& a, const S2& b, const std::string& what)
    {
        ++checks;
        bool ok = a.size() == b.size();
        if (ok) {
            auto i = a.begin();
            auto j = b.begin();
            for (; i != a.end(); ++i, ++j) {
                if (static_cast<size_t>(*i) != static_cast<size_t>(*j)) {
                    ok = false;
                }
            }
        }
        if (!ok) {
            std::ostringstream s;
            s << what << ": shape {";
            for (auto v : a) {
                s << v << ",";
            }
            s << "} expected {";
            for (auto v : b) {
                s << v << ",";
            }
            s << "}";
            fail(s.str());
        }
    }

    // Exact equality of two arrays (any containers with shape() and linear row-major iteration).
    template <class A, class B>
    void equal(const A& a, const B& b, const std::string& what)
    {
        same_shape(a.shape(), b.shape(), what);
        auto i = a.begin();
        auto j = b.begin();
        size_t n = 0;
        for (; i != a.end(); ++i, ++j, ++n) {
            ++checks;
            if (!(*i == *j)) {
                std::ostringstream s;
                s.precision(17);
                s << what << ": entry " << n << " is " << *i << " expected " << *j;
                fail(s.str());
            }
            observe(*i);
        }
    }

    template <class A, class B>
    void close(const A& a, const B& b, double tol, const std::string& what)
    {
        same_shape(a.shape(), b.shape(), what);
        auto i = a.begin();
        auto j = b.begin();
        size_t n = 0;
        for (; i != a.end(); ++i, ++j, ++n) {
            close1(*i, *j, tol, what, n);
        }
    }

    void close1(double x, double y, double tol, const std::string& what, size_t n = 0)
    {
        ++checks;
        if (!(std::abs(x - y) <= tol * (1.0 + std::abs(y)))) {
            std::ostringstream s;
            s.precision(17);
            s << what << ": entry " << n << " is " << x << " expected " << y;
            fail(s.str());
        }
        observe(x);
    }

    void state(uint64_t h)
    {
        states.insert(h);
    }

    int finish(const std::string& bounds)
    {
        std::ofstream f(out);
        f << "{\"evaluations\": " << evaluations << ", \"nontrivial\": " << nontrivial
          << ", \"checks\": " << checks << ", \"transitions\": " << transitions
          << ", \"cases_total\": " << counter << ", \"capped\": " << (capped ? "true" : "false")
          << ", \"bounds\": " << jstr(bounds) << ", \"samples\": [";
        for (size_t i = 0; i < samples.size(); ++i) {
            f << (i ? ", " : "") << jstr(samples[i]);
        }
        f << "], \"counts\": {";
        bool first = true;
        for (auto& c : counts) {
            f << (first ? "" : ", ") << jstr(c.first) << ": " << c.second;
            first = false;
        }
        f << "}, \"failures\": [";
        for (size_t i = 0; i < failures.size(); ++i) {
            f << (i ? ", " : "") << "{\"index\": " << failures[i].index
              << ", \"desc\": " << jstr(failures[i].desc) << ", \"msg\": " << jstr(failures[i].msg)
              << ", \"tag\": " << jstr(failures[i].tag) << "}";
        }
        f << "], \"outcomes\": [";
        hashes(f, outcomes);
        f << "], \"states\": [";
        hashes(f, states);
        f << "]}\n";
        f.close();
        return failures.empty() ? 0 : 1;
    }

private:
    static void hashes(std::ostream& f, const std::unordered_set<uint64_t>& s)
    {
        bool first = true;
        for (auto h : s) {
            f << (first ? "" : ",") << h;
            first = false;
        }
    }

    uint64_t m_index = 0;
    uint64_t m_h = 0;
    std::function<std::string()> m_desc;
};

// ------------------------------------------------------------------------------------------------
// enumeration helpers

// All tuples in {0..b-1}^n; f(vector). Deterministic lexicographic order.
template <class F>
void tuples(size_t n, size_t b, F&& f)
{
    std::vector<size_t> t(n, 0);
    if (n > 0 && b == 0) {
        return;
    }
    while (true) {
        f(static_cast<const std::vector<size_t>&>(t));
        size_t i = n;
        while (i > 0) {
            --i;
            if (++t[i] < b) {
                break;
            }
            t[i] = 0;
            if (i == 0) {
                return;
            }
        }
        if (n == 0) {
            return;
        }
    }
}

// All restricted growth strings (set partitions) of length n.
template <class F>
void partitions(size_t n, F&& f)
{
    std::vector<size_t> t(n, 0);
    std::function<void(size_t, size_t)> rec = [&](size_t i, size_t m) {
        if (i == n) {
            f(static_cast<const std::vector<size_t>&>(t));
            return;
        }
        for (size_t v = 0; v <= m; ++v) {
            t[i] = v;
            rec(i + 1, std::max(m, v + 1));
        }
    };
    rec(0, 0);
}

// Deterministic pseudo-random generator (only for values, never for the choice of cases).
struct Lcg {
    uint64_t s;
    explicit Lcg(uint64_t seed = 12345) : s(seed * 2654435761ull + 88172645463325252ull) {}
    uint64_t next()
    {
        s ^= s << 13;
        s ^= s >> 7;
        s ^= s << 17;
        return s;
    }
    size_t below(size_t n)
    {
        return static_cast<size_t>((next() >> 11) % n);
    }
    double integer(int lo, int hi)
    {
        return lo + static_cast<double>(below(static_cast<size_t>(hi - lo + 1)));
    }
};

template <class C>
std::string str(const C& c)
{
    std::ostringstream s;
    s << "[";
    bool first = true;
    for (auto v : c) {
        s << (first ? "" : ",") << v;
        first = false;
    }
    s << "]";
    return s.str();
}

} // namespace vh

#endif
