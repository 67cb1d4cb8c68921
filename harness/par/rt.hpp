// A stand-in for the parts of std and pthread that threads are made of. All threads are fibers of one real thread, every
// operation on an atomic, mutex or condition variable is a point where the scheduler may switch to another fiber, and everything
// is recorded. Include it before the code under test, then define std as vfstd and pthread_create as vf_pthread_create.
#pragma once
#include <bits/stdc++.h>
#include <alloca.h>
#include <pthread.h>
#include <signal.h>
#include <sys/mman.h>
#include <sys/wait.h>
#include <ucontext.h>
#include <unistd.h>

namespace vf {

enum Kind : uint8_t { LOAD, STORE, RMW, LOCK, UNLOCK, FENCE, SPAWN, RD, WR, CALL, BEGIN, END, RET, PUSH, POP, DONE, DEAD, FATE, ARR };
struct Event { uint8_t t; Kind k; uint8_t a, r; int32_t x, y, z; };
enum Fate { FINE = 0, STUCK, ENDLESS, FULL };

struct Shared { // what survives a run
    int n, fate;
    bool gone;       // something was used after its end of life
    long steps;
    int trail;       // switches made
    struct { int step, to; } sw[4000];
    Event ev[60000];
};
inline Shared* sh;
constexpr int MAX_EV = sizeof(Shared::ev) / sizeof(Event) - 8;

struct Fiber {
    ucontext_t ctx;
    int id;
    bool done = false;
    const void* on = nullptr;    // what it sleeps on
    long prio = 0;
    int weight = 1;
    std::function<void()> body;
};
inline std::vector<Fiber*> fibers;
inline Fiber* me;
inline bool recording = false, running = false;
inline std::function<bool()> over;   // the run is complete
inline uint64_t seed = 1;
inline uint64_t rnd() { seed ^= seed << 13; seed ^= seed >> 7; seed ^= seed << 17; return seed * 0x2545F4914F6CDD1Dull >> 11; }

// how to schedule
struct Plan {
    int mode = 0;             // 0: random, 1: priorities with a few changes, 2: the given switches, and otherwise as long as possible, 3: some threads are slow, for a while
    int per1000 = 300;        // 0: how often to switch
    int changes = 3, length = 300;  // 1
    int spurious = 0;         // how often (of 1000) a weak compare-exchange fails for nothing, and one that sleeps wakes for nothing
    std::vector<std::pair<int, int>> sw;
};
inline Plan plan;
inline std::set<long> changes;
inline long alone = 0;

inline void put(Kind k, int a = 0, int r = 0, int64_t x = 0, int64_t y = 0, int64_t z = 0)
{
    if (!recording) return;
    if (sh->n >= MAX_EV) { sh->fate = FULL; _exit(0); }
    sh->ev[sh->n++] = Event { (uint8_t) me->id, k, (uint8_t) a, (uint8_t) r, (int32_t) x, (int32_t) y, (int32_t) z };
}
[[noreturn]] inline void finish(int fate)
{
    sh->fate = fate;
    if (fate == FULL) _exit(0);
    if (fate) put(FATE, fate);
    _exit(0);
}

// places: atomics, mutexes and the plain cells of the tests
inline std::map<const void*, int> places;
inline int last_place = 0;
inline std::map<const void*, const void*> dead;   // and of which type it was: memory is used again as something else
template <class T> struct type_of { static char tag; };
template <class T> char type_of<T>::tag;
inline int place(const void* p) { int& n = places[p]; if (!n) n = ++last_place; return n; }
template <class T> void touch(const T* p) { if (running) { auto i = dead.find(p); if (i != dead.end() && i->second == &type_of<T>::tag) { sh->gone = true; put(DEAD, 0, 0, place(p)); } } }
template <class T> void born(const T* p) { dead.erase(p); places.erase(p); }
template <class T> void died(const T* p) { dead[p] = &type_of<T>::tag; }

inline void go(Fiber* f)
{
    if (f == me) return;
    if (sh->trail < 4000) { sh->sw[sh->trail].step = (int) sh->steps; sh->sw[sh->trail++].to = f->id; }
    Fiber* was = me;
    me = f;
    alone = 0;
    swapcontext(&was->ctx, &f->ctx);
}
inline bool ready(Fiber* f) { return !f->done && !f->on; }
inline std::vector<Fiber*> all_ready() { std::vector<Fiber*> v; for (Fiber* f : fibers) if (ready(f)) v.push_back(f); return v; }

inline void weigh() { static const int w[] = { 1000, 1000, 100, 10, 2 }; for (Fiber* f : fibers) f->weight = w[rnd() % 5]; }

// the current fiber sleeps or is done, or may be preempted
inline void step(bool yielding = false)
{
    if (!running) return;
    long s = ++sh->steps;
    if (s > 400000) finish(ENDLESS);
    bool can = ready(me);
    if (plan.mode != 2 && plan.spurious && rnd() % 1000 < (uint64_t) plan.spurious / 4) {
        Fiber* f = fibers[rnd() % fibers.size()];
        if (!f->done) f->on = nullptr;
    }
    std::vector<Fiber*> v = all_ready();
    if (v.empty()) finish(over() ? FINE : STUCK);
    ++alone;
    if (plan.mode == 2) {
        for (auto& q : plan.sw)
            if (q.first == s && q.second < (int) fibers.size() && ready(fibers[q.second])) return go(fibers[q.second]);
        if (can && !yielding && alone < 3000) return;
        for (size_t k = 1; k <= fibers.size(); k++) {
            Fiber* f = fibers[(me->id + k) % fibers.size()];
            if (ready(f)) return go(f);
        }
    }
    if (plan.mode == 1) {
        static long low = -1;
        if (changes.count(s) || yielding || alone > 500) { me->prio = low--; alone = 0; }
        Fiber* best = v[0];
        for (Fiber* f : v) if (f->prio > best->prio) best = f;
        return go(best);
    }
    if (plan.mode == 3) {
        if (rnd() % (uint64_t) plan.length == 0) weigh();
        if (can && !yielding && rnd() % 3) { if ((int) (rnd() % 1000) < me->weight) return; }
        long sum = 0;
        for (Fiber* f : v) sum += f->weight;
        long x = (long) (rnd() % (uint64_t) sum);
        for (Fiber* f : v) if ((x -= f->weight) < 0) return go(f);
    }
    if (can && !yielding && rnd() % 1000 >= (uint64_t) plan.per1000) return;
    go(v[rnd() % v.size()]);
}

inline void trampoline(int id)
{
    fibers[id]->body();
    fibers[id]->done = true;
    step();
    abort();
}
inline Fiber* spawn(std::function<void()> body)
{
    Fiber* f = new Fiber();
    f->id = (int) fibers.size();
    f->body = std::move(body);
    static const int w[] = { 1000, 1000, 100, 10, 2 };
    f->weight = running ? w[rnd() % 5] : 1000;
    f->prio = running ? (long) (rnd() % 1000) : 0;
    if (f->id) {
        // the distance between stacks is a multiple of every small number: what hashes the addresses of locals gets collisions
        size_t bytes = 99 * 4096;
        static char* base = (char*) mmap(nullptr, bytes * 256, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
        if (f->id >= 256) abort();
        char* st = base + bytes * f->id;
        getcontext(&f->ctx);
        f->ctx.uc_stack.ss_sp = st;
        f->ctx.uc_stack.ss_size = bytes;
        f->ctx.uc_link = nullptr;
        makecontext(&f->ctx, (void (*)()) trampoline, 1, f->id);
    }
    fibers.push_back(f);
    if (running) put(SPAWN, 0, 0, f->id);
    return f;
}
inline bool init() // the main thread is a fiber, too
{
    if (!me) {
        sh = (Shared*) mmap(nullptr, sizeof(Shared), PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
        me = spawn([] {});
    }
    return true;
}
inline bool inited = init();

inline void begin_run(uint64_t s, const Plan& p, std::function<bool()> o)
{
    seed = s * 0x9E3779B97F4A7C15ull | 1;
    for (int i = 0; i < 5; i++) rnd();
    plan = p;
    over = o;
    sh->n = sh->fate = 0; sh->gone = false; sh->steps = 0; sh->trail = 0;
    changes.clear();
    for (Fiber* f : fibers) f->prio = (long) (rnd() % 1000);
    weigh();
    for (int i = 0; i < p.changes; i++) changes.insert(1 + (long) (rnd() % p.length));
    recording = running = true;
}

inline bool acq(std::memory_order o) { return o == std::memory_order_acquire || o == std::memory_order_acq_rel || o == std::memory_order_seq_cst || o == std::memory_order_consume; }
inline bool rel(std::memory_order o) { return o == std::memory_order_release || o == std::memory_order_acq_rel || o == std::memory_order_seq_cst; }

// plain memory that threads share
inline int cell() { return ++last_place; }
inline void rd(int c) { step(); put(RD, 0, 0, c); }
inline void wr(int c) { step(); put(WR, 0, 0, c); }
} // namespace vf

namespace vfstd {
using namespace std;

template <class T> struct atomic {
    T v;
    atomic() noexcept : v() { vf::born(this); }
    atomic(T x) noexcept : v(x) { vf::born(this); }
    ~atomic() { vf::died(this); }
    atomic(const atomic&) = delete;
    atomic& operator=(const atomic&) = delete;
    static constexpr bool is_always_lock_free = true;
    bool is_lock_free() const { return true; }

    T load(memory_order o = memory_order_seq_cst) const { vf::step(); vf::touch(this); vf::put(vf::LOAD, vf::acq(o), 0, vf::place(this)); return v; }
    void store(T x, memory_order o = memory_order_seq_cst) { vf::step(); vf::touch(this); vf::put(vf::STORE, 0, vf::rel(o), vf::place(this)); v = x; }
    template <class F> T rmw(memory_order o, F f) { vf::step(); vf::touch(this); vf::put(vf::RMW, vf::acq(o), vf::rel(o), vf::place(this)); T was = v; v = f(was); return was; }
    T exchange(T x, memory_order o = memory_order_seq_cst) { return rmw(o, [&](T) { return x; }); }
    bool cas(T& e, T x, memory_order s, memory_order f, bool weak) {
        vf::step(); vf::touch(this);
        if (memcmp(&v, &e, sizeof(T)) || weak && vf::running && vf::plan.spurious && vf::rnd() % 1000 < (uint64_t) vf::plan.spurious) {
            vf::put(vf::LOAD, vf::acq(f), 0, vf::place(this));
            e = v;
            return false;
        }
        vf::put(vf::RMW, vf::acq(s), vf::rel(s), vf::place(this));
        v = x;
        return true;
    }
    static memory_order fail(memory_order o) { return o == memory_order_acq_rel ? memory_order_acquire : o == memory_order_release ? memory_order_relaxed : o; }
    bool compare_exchange_weak(T& e, T x, memory_order s, memory_order f) { return cas(e, x, s, f, true); }
    bool compare_exchange_weak(T& e, T x, memory_order o = memory_order_seq_cst) { return cas(e, x, o, fail(o), true); }
    bool compare_exchange_strong(T& e, T x, memory_order s, memory_order f) { return cas(e, x, s, f, false); }
    bool compare_exchange_strong(T& e, T x, memory_order o = memory_order_seq_cst) { return cas(e, x, o, fail(o), false); }
    template <class U> T fetch_add(U x, memory_order o = memory_order_seq_cst) { return rmw(o, [&](T w) { return T(w + x); }); }
    template <class U> T fetch_sub(U x, memory_order o = memory_order_seq_cst) { return rmw(o, [&](T w) { return T(w - x); }); }
    T fetch_or(T x, memory_order o = memory_order_seq_cst) { return rmw(o, [&](T w) { return T(w | x); }); }
    T fetch_and(T x, memory_order o = memory_order_seq_cst) { return rmw(o, [&](T w) { return T(w & x); }); }
    operator T() const { return load(); }
    T operator=(T x) { store(x); return x; }
    T operator++() { return fetch_add(1) + 1; }
    T operator++(int) { return fetch_add(1); }
    T operator--() { return fetch_sub(1) - 1; }
    T operator--(int) { return fetch_sub(1); }
    template <class U> T operator+=(U x) { return T(fetch_add(x) + x); }
    template <class U> T operator-=(U x) { return T(fetch_sub(x) - x); }
};
typedef atomic<int> atomic_int;
typedef atomic<unsigned> atomic_uint;
typedef atomic<long> atomic_long;
typedef atomic<bool> atomic_bool;
typedef atomic<int32_t> atomic_int32_t;
typedef atomic<uint32_t> atomic_uint32_t;
typedef atomic<int64_t> atomic_int64_t;
typedef atomic<uint64_t> atomic_uint64_t;
typedef atomic<size_t> atomic_size_t;
typedef atomic<uintptr_t> atomic_uintptr_t;
inline void atomic_thread_fence(memory_order o) { vf::step(); vf::put(vf::FENCE, vf::acq(o), vf::rel(o)); }

struct mutex {
    vf::Fiber* owner = nullptr;
    mutex() { vf::born(this); }
    ~mutex() { vf::died(this); }
    mutex(const mutex&) = delete;
    void lock() {
        vf::step(); vf::touch(this);
        while (owner) { vf::me->on = this; vf::step(); }
        owner = vf::me;
        vf::put(vf::LOCK, 0, 0, vf::place(this));
    }
    bool try_lock() {
        vf::step(); vf::touch(this);
        if (owner) return false;
        owner = vf::me;
        vf::put(vf::LOCK, 0, 0, vf::place(this));
        return true;
    }
    void unlock() {
        vf::step(); vf::touch(this);
        owner = nullptr;
        vf::put(vf::UNLOCK, 0, 0, vf::place(this));
        for (vf::Fiber* f : vf::fibers) if (f->on == this) f->on = nullptr;
    }
};
typedef mutex recursive_mutex_unsupported;

enum class cv_status { no_timeout, timeout };
struct condition_variable {
    condition_variable() { vf::born(this); }
    ~condition_variable() { vf::died(this); }
    condition_variable(const condition_variable&) = delete;
    template <class L> void wait(L& l) {
        vf::step(); vf::touch(this);
        mutex* m = l.mutex();
        m->owner = nullptr;
        vf::put(vf::UNLOCK, 0, 0, vf::place(m));
        for (vf::Fiber* f : vf::fibers) if (f->on == m) f->on = nullptr;
        vf::me->on = this;
        vf::step();
        while (m->owner) { vf::me->on = m; vf::step(); }
        m->owner = vf::me;
        vf::put(vf::LOCK, 0, 0, vf::place(m));
    }
    template <class L, class P> void wait(L& l, P p) { while (!p()) wait(l); }
    template <class L, class D> cv_status wait_for(L& l, const D&) { l.unlock(); vf::step(true); l.lock(); return cv_status::timeout; }
    template <class L, class D, class P> bool wait_for(L& l, const D& d, P p) { while (!p()) wait_for(l, d); return true; }
    void notify_one() {
        vf::step(); vf::touch(this);
        std::vector<vf::Fiber*> v;
        for (vf::Fiber* f : vf::fibers) if (f->on == this) v.push_back(f);
        if (v.size()) v[vf::running ? vf::rnd() % v.size() : 0]->on = nullptr;
    }
    void notify_all() { vf::step(); vf::touch(this); for (vf::Fiber* f : vf::fibers) if (f->on == this) f->on = nullptr; }
};
typedef condition_variable condition_variable_any;

struct thread {
    vf::Fiber* f = nullptr;
    thread() {}
    template <class F, class... A> explicit thread(F fn, A... a) { f = vf::spawn([=] { fn(a...); }); }
    void detach() {}
    void join() { while (!f->done) vf::step(true); }
    static unsigned hardware_concurrency() { return 4; }
};
namespace this_thread { using namespace std::this_thread; inline void yield() { vf::step(true); } }
} // namespace vfstd

inline int vf_pthread_create(pthread_t* t, const pthread_attr_t*, void* (*fn)(void*), void* arg)
{
    *t = (pthread_t) vf::spawn([=] { fn(arg); })->id;
    return 0;
}
