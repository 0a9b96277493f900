// A controlled runtime for threads: threads that run one at a time (control is handed over explicitly), the OpenMP runtime (libgomp entry
// points) and the memory-access hooks of -fsanitize=thread. Per parallel region all memory accesses of all threads are
// recorded. Two accesses of different threads conflict if they overlap, at least one writes, and they are not ordered by a
// barrier, both atomic, or both inside the same critical section. Without conflicts all interleavings of the region are
// equivalent to the executed one (they form one Mazurkiewicz trace). Threads storing the same value to the same location
// (and nobody else reading it) also commute.
#ifndef VERIF_OMP_RUNTIME_H
#define VERIF_OMP_RUNTIME_H
#include "common.h"

#include <atomic>
#include <dlfcn.h>
#include <memory>
#include <sys/mman.h>
#include <malloc.h>
#include <pthread.h>
#include <semaphore.h>
#include <unordered_map>


namespace mc {

struct Access {
    int tid;
    bool write, atomic;
    uint8_t mask;
    uint32_t epoch;
    uint64_t locks;
};

struct Cell {
    std::vector<Access> a;
};

struct Conflict {
    bool read = false; // somebody else reads: not a pair of stores
    size_t count = 0;
    int a = -1, b = -1;
    std::string what;
};

enum class Status { ready, barrier, done };

// a real thread (so that thread-local variables are its own) that runs only when it is given control
struct Worker {
    pthread_t thread;
    sem_t go;
    void* stack = nullptr;
};

struct Thread {
    Worker* worker = nullptr;
    void* stack = nullptr;
    Status status = Status::ready;
    uint32_t epoch = 0;
    uint64_t locks = 0;
    size_t shares = 0, single = 0;
    std::vector<std::pair<uintptr_t, uint8_t>> writes; // words written (for the comparison of stores)
};

struct Share { // dynamically scheduled loop
    bool init = false;
    uint64_t next = 0, end = 0, incr = 0, chunk = 1;
    bool up = true;
};

const size_t stack_size = 512 * 1024;

struct Runtime {
    // configuration of an execution
    int team = 2;
    int policy = 0; // order in which threads get their turn: 0 ascending, 1 descending, >= 2 rotation
    std::vector<int> choices; // at synchronisation points: 1: preempt
    // results of an execution
    size_t regions = 0, accesses = 0, switches = 0, sync = 0, conflicts = 0, same_stores = 0, max_iter = 0;
    std::string violation;

    // state of the region
    bool active = false;
    int inside = 0; // the runtime itself is executing
    int cur = -1;
    int nested = 0;
    std::vector<std::unique_ptr<Thread>> threads;
    std::vector<Worker*> workers; // never released: they outlive main
    sem_t main;
    std::vector<int> order;
    size_t turn = 0;
    void (*fn)(void*) = nullptr;
    void* data = nullptr;
    std::unordered_map<uintptr_t, Cell> shadow;
    std::unordered_map<const void*, int> locknames;
    std::map<const void*, int> owner;
    std::vector<Share> shares;
    size_t single = 0;
    std::vector<void*> freed;
    // stores of several threads: location -> value of each thread
    struct Store { int tid; uint8_t mask; uint64_t value; uint32_t epoch; };
    std::unordered_map<uintptr_t, std::vector<Store>> stores;
    std::unordered_map<uintptr_t, uint8_t> doubtful; // words with stores of several threads
    bool single_run = false;
};

Runtime R;

struct Inside {
    Inside() { ++R.inside; }
    ~Inside() { --R.inside; }
};

inline bool own_stack(uintptr_t p)
{
    auto& t = *R.threads[R.cur];
    auto s = reinterpret_cast<uintptr_t>(t.stack);
    return p >= s && p < s + stack_size;
}

void conflict(const Access& a, const Access& b, uintptr_t word)
{
    ++R.conflicts;
    if (!a.write || !b.write) {
        if (R.violation.empty()) {
            std::ostringstream s;
            s << "threads " << a.tid << " (" << (a.write ? "store" : "load") << (a.atomic ? ", atomic" : "") << ") and " << b.tid << " ("
              << (b.write ? "store" : "load") << (b.atomic ? ", atomic" : "") << ") access the same memory unordered, in parallel region "
              << R.regions << " of this case (team of " << R.threads.size() << ")";
            R.violation = s.str();
        }
    }
    else {
        R.doubtful[word] |= a.mask & b.mask;
    }
}

void access(uintptr_t p, size_t n, bool write, bool atomic)
{
    if (!R.active || R.cur < 0 || n == 0 || R.inside || own_stack(p)) {
        return;
    }
    Inside guard;
    ++R.accesses;
    auto& t = *R.threads[R.cur];
    uintptr_t end = p + n;
    for (uintptr_t w = p >> 3; w <= (end - 1) >> 3; ++w) {
        uint8_t mask = 0;
        for (int k = 0; k < 8; ++k) {
            uintptr_t b = (w << 3) + k;
            if (b >= p && b < end) {
                mask |= 1 << k;
            }
        }
        Access x{R.cur, write, atomic, mask, t.epoch, t.locks};
        auto& c = R.shadow[w];
        bool have = false;
        for (auto& o : c.a) {
            if (o.tid == x.tid) {
                if (o.write == write && o.atomic == atomic && o.epoch == x.epoch && o.locks == x.locks) {
                    if ((o.mask & mask) == mask) {
                        have = true;
                    }
                }
                continue;
            }
        }
        if (have) {
            continue;
        }
        for (auto& o : c.a) {
            if (o.tid == x.tid || !(o.mask & mask) || (!o.write && !write) || (o.atomic && atomic) || o.epoch != x.epoch ||
                (o.locks & x.locks)) {
                continue;
            }
            conflict(o, x, w);
        }
        bool merged = false;
        for (auto& o : c.a) {
            if (o.tid == x.tid && o.write == write && o.atomic == atomic && o.epoch == x.epoch && o.locks == x.locks) {
                o.mask |= mask;
                merged = true;
                break;
            }
        }
        if (!merged) {
            c.a.push_back(x);
        }
        if (write) {
            t.writes.emplace_back(w, mask);
        }
    }
}

// the values a thread leaves behind (threads run one at a time: at a switch, memory holds what it stored)
void leave()
{
    Inside guard;
    auto& t = *R.threads[R.cur];
    std::unordered_map<uintptr_t, uint8_t> m;
    for (auto& w : t.writes) {
        m[w.first] |= w.second;
    }
    for (auto& w : m) {
        uint64_t v = 0;
        const unsigned char* p = reinterpret_cast<const unsigned char*>(w.first << 3);
        for (int k = 0; k < 8; ++k) {
            if (w.second & (1 << k)) {
                v |= static_cast<uint64_t>(p[k]) << (8 * k);
            }
        }
        auto& l = R.stores[w.first];
        bool found = false;
        for (auto& s : l) {
            if (s.tid == R.cur && s.epoch == t.epoch) {
                for (int k = 0; k < 8; ++k) {
                    if (w.second & (1 << k)) {
                        s.value &= ~(0xffull << (8 * k));
                    }
                }
                s.value |= v;
                s.mask |= w.second;
                found = true;
            }
        }
        if (!found) {
            l.push_back({R.cur, w.second, v, t.epoch});
        }
    }
    t.writes.clear();
}

void wait(sem_t* s)
{
    while (sem_wait(s) != 0) {
    }
}

// the thread that runs next: false if all are done
bool choose()
{
    size_t team = R.threads.size();
    while (true) {
        bool waiting = false;
        for (size_t k = 0; k < team; ++k) {
            int i = R.order[(R.turn + k) % team];
            if (R.threads[i]->status == Status::ready) {
                R.turn = (R.turn + k + 1) % team;
                R.cur = i;
                return true;
            }
            waiting = waiting || R.threads[i]->status == Status::barrier;
        }
        if (!waiting) {
            return false;
        }
        for (auto& t : R.threads) {
            if (t->status == Status::barrier) {
                t->status = Status::ready;
            }
        }
        R.turn = 0;
    }
}

void back()
{
    leave();
    ++R.switches;
    int self = R.cur;
    choose();
    if (R.cur != self) {
        Worker* w = R.threads[self]->worker;
        sem_post(&R.threads[R.cur]->worker->go);
        wait(&w->go);
    }
}

// a point at which another thread may be scheduled: default is to continue
void point()
{
    if (!R.active || R.cur < 0 || R.nested) {
        return;
    }
    size_t i = R.sync++;
    int c = i < R.choices.size() ? R.choices[i] : 0;
    if (c) {
        back();
    }
}

void* entry(void* p)
{
    Worker* w = static_cast<Worker*>(p);
    while (true) {
        wait(&w->go);
        R.fn(R.data);
        R.threads[R.cur]->status = Status::done;
        leave();
        sem_post(choose() ? &R.threads[R.cur]->worker->go : &R.main);
    }
    return nullptr;
}

Worker* worker(size_t i)
{
    if (R.workers.empty()) {
        mallopt(M_ARENA_MAX, 1);
        sem_init(&R.main, 0, 0);
    }
    while (R.workers.size() <= i) {
        auto w = new Worker;
        w->stack = mmap(nullptr, stack_size, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
        if (w->stack == MAP_FAILED) {
            _exit(96);
        }
        sem_init(&w->go, 0, 0);
        pthread_attr_t attr;
        pthread_attr_init(&attr);
        pthread_attr_setstack(&attr, w->stack, stack_size);
        if (pthread_create(&w->thread, &attr, entry, w) != 0) {
            _exit(96);
        }
        pthread_attr_destroy(&attr);
        R.workers.push_back(w);
    }
    return R.workers[i];
}

void region(void (*fn)(void*), void* data, unsigned n)
{
    if (R.active) { // nested regions have one thread
        ++R.nested;
        fn(data);
        --R.nested;
        return;
    }
    int team = n ? static_cast<int>(n) : R.team;
    ++R.regions;
    R.threads.clear();
    R.shadow.clear();
    R.stores.clear();
    R.doubtful.clear();
    R.shares.clear();
    R.owner.clear();
    R.single = 0;
    R.fn = fn;
    R.data = data;
    for (int i = 0; i < team; ++i) {
        auto t = std::make_unique<Thread>();
        t->worker = worker(i);
        t->stack = t->worker->stack;
        R.threads.push_back(std::move(t));
    }
    std::vector<int> order(team);
    for (int i = 0; i < team; ++i) {
        order[i] = R.policy == 0 ? i : R.policy == 1 ? team - 1 - i : (i + R.policy - 1) % team;
    }
    R.order.swap(order);
    R.turn = 0;
    R.active = true;
    choose();
    sem_post(&R.threads[R.cur]->worker->go);
    wait(&R.main);
    R.cur = -1;
    R.active = false;
    // (R.cur is -1: nothing is recorded)
    // stores of several threads to one location
    for (auto& d : R.doubtful) {
        auto& l = R.stores[d.first];
        for (size_t a = 0; a < l.size(); ++a) {
            for (size_t b = a + 1; b < l.size(); ++b) {
                uint8_t m = l[a].mask & l[b].mask;
                if (l[a].tid == l[b].tid || l[a].epoch != l[b].epoch || !m) {
                    continue;
                }
                ++R.same_stores;
                for (int k = 0; k < 8; ++k) {
                    if ((m & (1 << k)) && ((l[a].value >> (8 * k)) & 0xff) != ((l[b].value >> (8 * k)) & 0xff) && R.violation.empty()) {
                        std::ostringstream s;
                        s << "threads " << l[a].tid << " and " << l[b].tid << " store different values to the same memory unordered, in parallel region "
                          << R.regions << " of this case (team of " << team << ")";
                        R.violation = s.str();
                    }
                }
            }
        }
    }
    std::vector<void*> freed;
    freed.swap(R.freed);
    for (void* p : freed) {
        free(p);
    }
}

void barrier()
{
    if (!R.active || R.nested) {
        return;
    }
    auto& t = *R.threads[R.cur];
    t.status = Status::barrier;
    back();
    ++t.epoch;
}

uint64_t lockbit(const void* name)
{
    auto i = R.locknames.find(name);
    if (i == R.locknames.end()) {
        i = R.locknames.emplace(name, static_cast<int>(R.locknames.size() % 63)).first;
    }
    return 1ull << i->second;
}

void lock(const void* name)
{
    if (!R.active) {
        return;
    }
    point();
    while (R.owner.count(name)) {
        back(); // held by a preempted thread: let it continue
    }
    Inside guard;
    R.owner[name] = R.cur;
    R.threads[R.cur]->locks |= lockbit(name);
}

void unlock(const void* name)
{
    if (!R.active) {
        return;
    }
    {
        Inside guard;
        R.owner.erase(name);
        R.threads[R.cur]->locks &= ~lockbit(name);
    }
    point();
}

Share& share(uint64_t start, uint64_t end, uint64_t incr, uint64_t chunk, bool up)
{
    Inside guard;
    auto& t = *R.threads[R.cur];
    size_t i = t.shares++;
    if (R.shares.size() <= i) {
        R.shares.resize(i + 1);
    }
    auto& s = R.shares[i];
    if (!s.init) {
        s.init = true;
        s.next = start;
        s.end = end;
        s.incr = incr;
        s.chunk = chunk ? chunk : 1;
        s.up = up;
    }
    return s;
}

template <class T>
bool take(Share& s, T* a, T* b)
{
    point();
    T next = static_cast<T>(s.next), end = static_cast<T>(s.end), incr = static_cast<T>(s.incr);
    bool left = s.up ? next < end : next > end;
    if (!left) {
        return false;
    }
    *a = next;
    for (uint64_t k = 0; k < s.chunk; ++k) {
        next += incr;
        if (s.up ? next >= end : next <= end) {
            next = end;
            break;
        }
    }
    *b = next;
    s.next = static_cast<uint64_t>(next);
    return true;
}

static const int thelock = 0;

} // namespace mc

using mc::R;

// ---------------------------------------------------------------- OpenMP runtime
extern "C" {

int omp_get_num_threads()
{
    return R.active && !R.nested ? static_cast<int>(R.threads.size()) : 1;
}
int omp_get_thread_num()
{
    return R.active && !R.nested ? R.cur : 0;
}
int omp_get_max_threads()
{
    return R.team;
}
int omp_get_num_procs()
{
    return R.team;
}
int omp_in_parallel()
{
    return R.active;
}
void omp_set_num_threads(int) {}
void omp_set_dynamic(int) {}
int omp_get_dynamic()
{
    return 0;
}
int omp_get_level()
{
    return R.active ? 1 + R.nested : 0;
}
double omp_get_wtime()
{
    return 0.0;
}

void GOMP_parallel(void (*fn)(void*), void* data, unsigned n, unsigned)
{
    mc::region(fn, data, n);
}
unsigned GOMP_parallel_reductions(void (*fn)(void*), void* data, unsigned n, unsigned)
{
    mc::region(fn, data, n);
    return n ? n : static_cast<unsigned>(R.team);
}
void GOMP_barrier()
{
    mc::barrier();
}
bool GOMP_single_start()
{
    if (!R.active || R.nested) {
        return true;
    }
    auto& t = *R.threads[R.cur];
    size_t i = t.single++;
    if (i == R.single) {
        ++R.single;
        return true;
    }
    return false;
}
void GOMP_critical_start()
{
    mc::lock(&mc::thelock);
}
void GOMP_critical_end()
{
    mc::unlock(&mc::thelock);
}
void GOMP_critical_name_start(void** p)
{
    mc::lock(p);
}
void GOMP_critical_name_end(void** p)
{
    mc::unlock(p);
}
void GOMP_atomic_start()
{
    mc::lock(&R);
}
void GOMP_atomic_end()
{
    mc::unlock(&R);
}
void GOMP_loop_end()
{
    mc::barrier();
}
void GOMP_loop_end_nowait() {}

#define LOOP(kind) \
    bool GOMP_loop_##kind##_start(long a, long b, long i, long c, long* s, long* e) \
    { \
        return mc::take<long>(mc::share(a, b, i, c, i > 0), s, e); \
    } \
    bool GOMP_loop_##kind##_next(long* s, long* e) \
    { \
        return mc::take<long>(R.shares[R.threads[R.cur]->shares - 1], s, e); \
    } \
    bool GOMP_loop_ull_##kind##_start(bool up, unsigned long long a, unsigned long long b, unsigned long long i, unsigned long long c, \
                                      unsigned long long* s, unsigned long long* e) \
    { \
        return mc::take<unsigned long long>(mc::share(a, b, i, c, up), s, e); \
    } \
    bool GOMP_loop_ull_##kind##_next(unsigned long long* s, unsigned long long* e) \
    { \
        return mc::take<unsigned long long>(R.shares[R.threads[R.cur]->shares - 1], s, e); \
    }
LOOP(static)
LOOP(dynamic)
LOOP(guided)
LOOP(nonmonotonic_dynamic)
LOOP(nonmonotonic_guided)
#define RLOOP(kind) \
    bool GOMP_loop_##kind##_start(long a, long b, long i, long* s, long* e) \
    { \
        return mc::take<long>(mc::share(a, b, i, 1, i > 0), s, e); \
    } \
    bool GOMP_loop_##kind##_next(long* s, long* e) \
    { \
        return mc::take<long>(R.shares[R.threads[R.cur]->shares - 1], s, e); \
    } \
    bool GOMP_loop_ull_##kind##_start(bool up, unsigned long long a, unsigned long long b, unsigned long long i, \
                                      unsigned long long* s, unsigned long long* e) \
    { \
        return mc::take<unsigned long long>(mc::share(a, b, i, 1, up), s, e); \
    } \
    bool GOMP_loop_ull_##kind##_next(unsigned long long* s, unsigned long long* e) \
    { \
        return mc::take<unsigned long long>(R.shares[R.threads[R.cur]->shares - 1], s, e); \
    }
RLOOP(runtime)
RLOOP(maybe_nonmonotonic_runtime)
RLOOP(nonmonotonic_runtime)

} // extern "C"

namespace mc {
struct ParLoop {
    void (*fn)(void*);
    void* data;
    uint64_t a, b, i, c;
};
static ParLoop P;
static void parloop(void*)
{
    auto& t = *R.threads[R.cur];
    share(P.a, P.b, P.i, P.c, static_cast<long>(P.i) > 0);
    (void)t;
    P.fn(P.data);
}
static void parallel_loop(void (*fn)(void*), void* data, unsigned n, long a, long b, long i, long c)
{
    if (R.active) {
        fprintf(stderr, "unsupported: nested parallel loop\n");
        _exit(96);
    }
    P = {fn, data, static_cast<uint64_t>(a), static_cast<uint64_t>(b), static_cast<uint64_t>(i), static_cast<uint64_t>(c)};
    region(parloop, nullptr, n);
}
} // namespace mc

extern "C" {
#define PLOOP(kind) \
    void GOMP_parallel_loop_##kind(void (*fn)(void*), void* d, unsigned n, long a, long b, long i, long c, unsigned) \
    { \
        mc::parallel_loop(fn, d, n, a, b, i, c); \
    }
PLOOP(static)
PLOOP(dynamic)
PLOOP(guided)
PLOOP(nonmonotonic_dynamic)
PLOOP(nonmonotonic_guided)
#define PRLOOP(kind) \
    void GOMP_parallel_loop_##kind(void (*fn)(void*), void* d, unsigned n, long a, long b, long i, unsigned) \
    { \
        mc::parallel_loop(fn, d, n, a, b, i, 1); \
    }
PRLOOP(runtime)
PRLOOP(maybe_nonmonotonic_runtime)
PRLOOP(nonmonotonic_runtime)

// ---------------------------------------------------------------- memory accesses
void __tsan_init() {}
void __tsan_func_entry(void*) {}
void __tsan_func_exit() {}
#define RW(n) \
    void __tsan_read##n(void* p) { mc::access(reinterpret_cast<uintptr_t>(p), n, false, false); } \
    void __tsan_write##n(void* p) { mc::access(reinterpret_cast<uintptr_t>(p), n, true, false); } \
    void __tsan_unaligned_read##n(void* p) { mc::access(reinterpret_cast<uintptr_t>(p), n, false, false); } \
    void __tsan_unaligned_write##n(void* p) { mc::access(reinterpret_cast<uintptr_t>(p), n, true, false); } \
    void __tsan_volatile_read##n(void* p) { mc::access(reinterpret_cast<uintptr_t>(p), n, false, false); } \
    void __tsan_volatile_write##n(void* p) { mc::access(reinterpret_cast<uintptr_t>(p), n, true, false); }
RW(1) RW(2) RW(4) RW(8) RW(16)
void __tsan_read_range(void* p, size_t n)
{
    mc::access(reinterpret_cast<uintptr_t>(p), n, false, false);
}
void __tsan_write_range(void* p, size_t n)
{
    mc::access(reinterpret_cast<uintptr_t>(p), n, true, false);
}
void __tsan_vptr_update(void** p, void*)
{
    mc::access(reinterpret_cast<uintptr_t>(p), 8, true, false);
}
void __tsan_vptr_read(void** p)
{
    mc::access(reinterpret_cast<uintptr_t>(p), 8, false, false);
}

#define ATOMIC(bits, T) \
    T __tsan_atomic##bits##_load(const volatile T* p, int) \
    { \
        mc::point(); \
        mc::access(reinterpret_cast<uintptr_t>(p), sizeof(T), false, true); \
        return *p; \
    } \
    void __tsan_atomic##bits##_store(volatile T* p, T v, int) \
    { \
        mc::point(); \
        mc::access(reinterpret_cast<uintptr_t>(p), sizeof(T), true, true); \
        *p = v; \
    } \
    T __tsan_atomic##bits##_exchange(volatile T* p, T v, int) \
    { \
        mc::point(); \
        mc::access(reinterpret_cast<uintptr_t>(p), sizeof(T), true, true); \
        T o = *p; \
        *p = v; \
        return o; \
    } \
    int __tsan_atomic##bits##_compare_exchange_strong(volatile T* p, T* c, T v, int, int) \
    { \
        mc::point(); \
        mc::access(reinterpret_cast<uintptr_t>(p), sizeof(T), true, true); \
        if (*p == *c) { \
            *p = v; \
            return 1; \
        } \
        *c = *p; \
        return 0; \
    } \
    int __tsan_atomic##bits##_compare_exchange_weak(volatile T* p, T* c, T v, int a, int b) \
    { \
        return __tsan_atomic##bits##_compare_exchange_strong(p, c, v, a, b); \
    } \
    T __tsan_atomic##bits##_compare_exchange_val(volatile T* p, T c, T v, int a, int b) \
    { \
        __tsan_atomic##bits##_compare_exchange_strong(p, &c, v, a, b); \
        return c; \
    }
#define FETCH(bits, T, op, expr) \
    T __tsan_atomic##bits##_fetch_##op(volatile T* p, T v, int) \
    { \
        mc::point(); \
        mc::access(reinterpret_cast<uintptr_t>(p), sizeof(T), true, true); \
        T o = *p; \
        *p = expr; \
        return o; \
    }
#define ALL(bits, T) \
    ATOMIC(bits, T) \
    FETCH(bits, T, add, o + v) FETCH(bits, T, sub, o - v) FETCH(bits, T, and, o & v) FETCH(bits, T, or, o | v) FETCH(bits, T, xor, o ^ v)
ALL(8, uint8_t) ALL(16, uint16_t) ALL(32, uint32_t) ALL(64, uint64_t)
void __tsan_atomic_thread_fence(int) {}
void __tsan_atomic_signal_fence(int) {}

// calls that copy memory (linked with --wrap), and memory released inside a region (must not be handed to another thread)
void* __real_memcpy(void*, const void*, size_t);
void* __real_memmove(void*, const void*, size_t);
void* __real_memset(void*, int, size_t);
void __real_free(void*);
void* __wrap_memcpy(void* d, const void* s, size_t n)
{
    mc::access(reinterpret_cast<uintptr_t>(s), n, false, false);
    mc::access(reinterpret_cast<uintptr_t>(d), n, true, false);
    return __real_memmove(d, s, n);
}
void* __wrap_memmove(void* d, const void* s, size_t n)
{
    mc::access(reinterpret_cast<uintptr_t>(s), n, false, false);
    mc::access(reinterpret_cast<uintptr_t>(d), n, true, false);
    return __real_memmove(d, s, n);
}
void* __wrap_memset(void* d, int c, size_t n)
{
    mc::access(reinterpret_cast<uintptr_t>(d), n, true, false);
    return __real_memset(d, c, n);
}
void __wrap_free(void* p)
{
    if (R.active && R.cur >= 0 && !R.inside) {
        mc::Inside guard;
        R.freed.push_back(p);
        return;
    }
    __real_free(p);
}
} // extern "C"

// the runtime itself allocates inside regions: that memory is never visible to the threads
void operator delete(void* p) noexcept
{
    if (R.active && R.cur >= 0 && !R.inside) {
        mc::Inside guard;
        R.freed.push_back(p);
        return;
    }
    __real_free(p);
}
void operator delete(void* p, size_t) noexcept
{
    operator delete(p);
}
void operator delete[](void* p) noexcept
{
    operator delete(p);
}
void operator delete[](void* p, size_t) noexcept
{
    operator delete(p);
}

#endif
