// A cooperative scheduler for code compiled with thread-sanitizer instrumentation.
//
// Threads are coroutines. Every access to shared memory that the instrumentation reports is a scheduling
// point: the explorer chooses which thread goes on. All interleavings of the accesses (sequential
// consistency) are therefore enumerated; what weaker memory orders could add is covered by a
// happens-before check with vector clocks that takes the memory orders into account: an unordered pair of
// conflicting plain accesses is a data race and reported.
#ifndef SCHED_HPP
#define SCHED_HPP

#include "mc.hpp"

#include <array>
#include <functional>
#include <map>
#include <pthread.h>
#include <ucontext.h>

namespace mc
{
constexpr int         kThreads = 4;  // thread 0 is the main program
constexpr std::size_t kStack   = 128 * 1024;

struct Clock
{
    std::array<std::uint32_t, kThreads> c{};
    void                                join(const Clock& o)
    {
        for (int i = 0; i < kThreads; i++)
            c[i] = std::max(c[i], o.c[i]);
    }
};
struct Cell  // 8 bytes of memory
{
    Clock written, read, atomically_written, atomically_read;  // per thread: its own time at the last access
};
struct Undo
{
    char*         p;
    std::size_t   n;
    unsigned char old[16];
};
struct Thread
{
    ucontext_t            ctx;
    std::function<void()> body;
    bool                  done = true;
    const void*           waits_for = nullptr;  // guard or mutex held by somebody else
    Hasher                trace;                // everything this thread has observed
    Clock                 clock;
    int                   points = 0;
};
struct Sched
{
    Thread                           t[kThreads];
    std::vector<char>                stacks[kThreads];
    int                              n       = 0;
    int                              current = 0;
    bool                             active  = false;
    bool                             quiet   = false;  // no scheduling points for now
    bool                             cut     = false;
    ucontext_t                       main;
    std::map<std::uintptr_t, Cell>   cells;
    std::map<const void*, Clock>     sync;    // what an acquire of this location learns
    std::map<const void*, int>       locked;  // guards under construction and locked mutexes
    std::map<std::uintptr_t, std::size_t> touched;  // shared memory that is part of the state
    std::vector<Undo>                undo;
    std::function<void(Hasher&)>     extra_state;
    int                              switches = 0;
};
inline Sched& sched()
{
    static Sched* s = new Sched;
    return *s;
}
inline bool is_private(const void* p)
{
    Sched&               s = sched();
    const char*          c = static_cast<const char*>(p);
    for (int i = 1; i < kThreads; i++)
        if (!s.stacks[i].empty() && c >= s.stacks[i].data() && c < s.stacks[i].data() + s.stacks[i].size())
            return true;
    // thread-local variables
    const char* const tp = static_cast<const char*>(__builtin_thread_pointer());
    if (c >= tp - 65536 && c < tp + 4096)
        return true;
    // the stack of the program itself
    const char* here = static_cast<const char*>(__builtin_frame_address(0));
    if (s.current == 0 && c > here - 4096 && c < here + (1 << 20))
        return true;
    return false;
}
inline void remember(void* p, std::size_t n)
{
    Undo u;
    u.p = static_cast<char*>(p);
    while (n > 0)
    {
        u.n = std::min(n, sizeof u.old);
        std::memcpy(u.old, u.p, u.n);
        sched().undo.push_back(u);
        u.p += u.n;
        n -= u.n;
    }
}
/// Puts back everything that the instrumented code has written since the last call.
inline void rollback()
{
    Sched& s = sched();
    for (std::size_t i = s.undo.size(); i-- > 0;)
        std::memcpy(s.undo[i].p, s.undo[i].old, s.undo[i].n);
    s.undo.clear();
    s.cells.clear();
    s.sync.clear();
    s.locked.clear();
    s.cut = false;
    for (Thread& t : s.t)
        t.clock = Clock();
    for (int i = 0; i < kThreads; i++)
        s.t[i].clock.c[i] = 1;
}

// ---------------------------------------------------------------------------------------- switching
inline bool runnable(int i)
{
    Thread& t = sched().t[i];
    return !t.done && (t.waits_for == nullptr || sched().locked.count(t.waits_for) == 0);
}
inline Key sched_key()
{
    Sched& s = sched();
    Hasher h;
    for (int i = 1; i <= s.n; i++)
    {
        const Key k = s.t[i].trace.key();
        h.u64(k.a);
        h.u64(k.b);
        h.u64((s.t[i].done ? 1U : 0U) + (s.t[i].waits_for != nullptr ? 2U : 0U));
        for (auto c : s.t[i].clock.c)
            h.u64(c);
    }
    for (auto& m : s.touched)
        h.bytes(reinterpret_cast<const void*>(m.first), m.second);
    for (auto& l : s.locked)
    {
        h.u64(reinterpret_cast<std::uintptr_t>(l.first));
        h.u64(static_cast<std::uint64_t>(l.second));
    }
    for (auto& y : s.sync)
    {
        h.u64(reinterpret_cast<std::uintptr_t>(y.first));
        for (auto c : y.second.c)
            h.u64(c);
    }
    for (auto& c : s.cells)
    {
        h.u64(c.first);
        h.bytes(&c.second, sizeof c.second);
    }
    if (s.extra_state)
        s.extra_state(h);
    return h.key();
}
inline void resume(int next)
{
    Sched& s    = sched();
    int    self = s.current;
    if (self == next)
        return;
    s.current = next;
    s.switches++;
    if (self == 0)
        swapcontext(&s.main, &s.t[next].ctx);
    else
        swapcontext(&s.t[self].ctx, next == 0 ? &s.main : &s.t[next].ctx);
}
/// A scheduling point: somebody goes on. Does not return if the rest is already known.
inline void point()
{
    Sched& s = sched();
    int    can[kThreads], n = 0;
    for (int i = 1; i <= s.n; i++)
        if (runnable(i))
            can[n++] = i;
    if (n == 0)
    {
        bool all = true;
        for (int i = 1; i <= s.n; i++)
            all = all && s.t[i].done;
        MC_CHECK(all, "the threads wait for each other for ever");
        resume(0);
        return;
    }
    if (n > 1)
    {
        // the state is the same whichever thread happens to be the current one
        const Key k = sched_key();
        if (!boundary(k, 1))
        {
            s.cut = true;
            resume(0);
            return;
        }
    }
    transition();
    const int next = can[choose(static_cast<unsigned>(n))];
    if (s.t[next].points++ > 400)
    {
        // waiting in a loop for a thread that is never scheduled: not a fair schedule
        s.cut = true;
        resume(0);
        return;
    }
    resume(next);
}
inline void yield(const void* p)
{
    Sched& s = sched();
    if (!s.active || s.quiet || s.current == 0 || is_private(p))
        return;
    point();
}
inline void block_on(const void* what)
{
    Sched& s = sched();
    MC_CHECK(s.active && s.current != 0, "a thread waits for itself");
    while (s.locked.count(what) != 0)
    {
        s.t[s.current].waits_for = what;
        point();
    }
    s.t[s.current].waits_for = nullptr;
}
inline void coroutine()
{
    Sched& s = sched();
    s.t[s.current].body();
    s.t[s.current].done = true;
    point();
    harness_error("a finished thread was resumed");
}
/// Runs the bodies to the end under the schedule that the explorer chooses. False: cut off, known already.
inline bool run_threads(std::vector<std::function<void()>> bodies)
{
    Sched& s = sched();
    s.n      = static_cast<int>(bodies.size());
    s.cut    = false;
    for (int i = 1; i <= s.n; i++)
    {
        Thread& t = s.t[i];
        if (s.stacks[i].empty())
            s.stacks[i].resize(kStack);
        t.body      = std::move(bodies[static_cast<std::size_t>(i - 1)]);
        t.done      = false;
        t.waits_for = nullptr;
        t.trace     = Hasher();
        t.points    = 0;
        t.clock     = s.t[0].clock;  // creation of the thread
        t.clock.c[i]++;
        getcontext(&t.ctx);
        t.ctx.uc_stack.ss_sp   = s.stacks[i].data();
        t.ctx.uc_stack.ss_size = s.stacks[i].size();
        t.ctx.uc_link          = nullptr;
        makecontext(&t.ctx, &coroutine, 0);
    }
    s.t[0].clock.c[0]++;
    s.current = 0;
    s.active  = true;
    // the first choice is made here, in the main context
    {
        const Key k = sched_key();
        if (!boundary(k, 1))
            s.cut = true;
        else
        {
            const int first = 1 + static_cast<int>(choose(static_cast<unsigned>(s.n)));
            transition();
            resume(first);
        }
    }
    s.active  = false;
    s.current = 0;
    for (int i = 1; i <= s.n; i++)
        s.t[0].clock.join(s.t[i].clock);  // joined
    s.n = 0;
    return !s.cut;
}

// ---------------------------------------------------------------------------------------- accesses
inline bool ordered(const Clock& access, const Clock& now)
{
    for (int i = 0; i < kThreads; i++)
        if (access.c[i] > now.c[i])
            return false;
    return true;
}
inline void saw(std::uint64_t v) { sched().t[sched().current].trace.u64(v); }

inline void plain(const void* p, std::size_t n, bool write)
{
    Sched& s = sched();
    if (is_private(p))
        return;
    yield(p);
    const std::uintptr_t u = reinterpret_cast<std::uintptr_t>(p);
    if (write)
    {
        remember(const_cast<void*>(p), n);
        auto& m = s.touched[u];
        m       = std::max(m, n);
    }
    Clock& now = s.t[s.current].clock;
    for (std::uintptr_t a = u & ~std::uintptr_t{7}; a < u + n; a += 8)
    {
        Cell& c = s.cells[a];
        if (write)
            MC_CHECK(ordered(c.written, now) && ordered(c.read, now) && ordered(c.atomically_written, now) && ordered(c.atomically_read, now),
                     "data race: a plain write is not ordered with another access");
        else
            MC_CHECK(ordered(c.written, now) && ordered(c.atomically_written, now), "data race: a plain read is not ordered with a write");
        (write ? c.written : c.read).c[static_cast<std::size_t>(s.current)] = now.c[static_cast<std::size_t>(s.current)];
    }
    std::uint64_t v = 0;
    std::memcpy(&v, p, std::min<std::size_t>(n, 8));
    saw(write ? 7 : v);
}
inline bool acquires(int mo) { return mo != __ATOMIC_RELAXED && mo != __ATOMIC_RELEASE; }
inline bool releases(int mo) { return mo == __ATOMIC_RELEASE || mo == __ATOMIC_ACQ_REL || mo == __ATOMIC_SEQ_CST; }

/// The bookkeeping of an atomic access; the access itself follows at once.
inline void atomic_access(const volatile void* vp, std::size_t n, bool read, bool write, int mo)
{
    Sched&      s = sched();
    const void* p = const_cast<const void*>(vp);
    if (is_private(p))
        return;
    // a guard that is already set tells everybody the same, but its acquire still orders
    const bool settled = n == 1 && !write && *static_cast<const unsigned char*>(p) == 1;
    if (!settled)
        yield(p);
    const std::size_t me  = static_cast<std::size_t>(s.current);
    Clock&            now = s.t[me].clock;
    Cell&             c   = s.cells[reinterpret_cast<std::uintptr_t>(p) & ~std::uintptr_t{7}];
    MC_CHECK(ordered(c.written, now), "data race: an atomic access is not ordered with a plain write");
    if (write)
    {
        MC_CHECK(ordered(c.read, now), "data race: an atomic write is not ordered with a plain read");
        remember(const_cast<void*>(p), n);
        auto& m = s.touched[reinterpret_cast<std::uintptr_t>(p)];
        m       = std::max(m, n);
        c.atomically_written.c[me] = now.c[me];
    }
    else
        c.atomically_read.c[me] = now.c[me];
    if (read && acquires(mo))
        now.join(s.sync[p]);
    if (write)
    {
        Clock& l = s.sync[p];
        if (!read)
            l = Clock();  // a plain store ends the release sequence
        if (releases(mo))
        {
            l.join(now);
            now.c[me]++;
        }
    }
}
}  // namespace mc

// ---------------------------------------------------------------------------------------- hooks
extern "C" {
void __tsan_init() {}
void __tsan_func_entry(void*) {}
void __tsan_func_exit() {}
#define MC_RW(n)                                                                                \
    void __tsan_read##n(void* p) { mc::plain(p, n, false); }                                    \
    void __tsan_write##n(void* p) { mc::plain(p, n, true); }                                    \
    void __tsan_unaligned_read##n(void* p) { mc::plain(p, n, false); }                          \
    void __tsan_unaligned_write##n(void* p) { mc::plain(p, n, true); }                          \
    void __tsan_volatile_read##n(void* p) { mc::plain(p, n, false); }                           \
    void __tsan_volatile_write##n(void* p) { mc::plain(p, n, true); }
MC_RW(1)
MC_RW(2)
MC_RW(4)
MC_RW(8)
MC_RW(16)
void __tsan_read_range(void* p, std::size_t n) { mc::plain(p, n, false); }
void __tsan_write_range(void* p, std::size_t n) { mc::plain(p, n, true); }
void __tsan_vptr_update(void** p, void*) { mc::plain(p, 8, true); }
void __tsan_vptr_read(void** p) { mc::plain(p, 8, false); }

#define MC_SAW(x) (mc::is_private((const void*) p) ? (void) 0 : mc::saw((std::uint64_t) (x)))
#define MC_RMW(bits, T, name, expr)                               \
    T __tsan_atomic##bits##_##name(volatile T* p, T v, int mo)    \
    {                                                             \
        mc::atomic_access(p, sizeof(T), true, true, mo);          \
        T old = *p;                                               \
        *p    = (expr);                                           \
        MC_SAW(old);                                              \
        return old;                                               \
    }
#define MC_CAS(bits, T, name)                                                                    \
    int __tsan_atomic##bits##_##name(volatile T* p, T* c, T v, int mo, int fmo)                  \
    {                                                                                            \
        if (mc::sched().active)                                                                  \
            mc::yield((const void*) p);                                                          \
        const bool q       = mc::sched().quiet;                                                  \
        mc::sched().quiet  = true;                                                               \
        const bool good    = *p == *c;                                                           \
        mc::atomic_access(p, sizeof(T), true, good, good ? mo : fmo);                            \
        mc::sched().quiet  = q;                                                                  \
        T old = *p;                                                                              \
        MC_SAW(old);                                                                             \
        if (good)                                                                                \
            *p = v;                                                                              \
        else                                                                                     \
            *c = old;                                                                            \
        return good;                                                                             \
    }
#define MC_ATOMIC(bits, T)                                        \
    T __tsan_atomic##bits##_load(const volatile T* p, int mo)     \
    {                                                             \
        mc::atomic_access(p, sizeof(T), true, false, mo);         \
        T v = *p;                                                 \
        MC_SAW(v);                                                \
        return v;                                                 \
    }                                                             \
    void __tsan_atomic##bits##_store(volatile T* p, T v, int mo)  \
    {                                                             \
        mc::atomic_access(p, sizeof(T), false, true, mo);         \
        *p = v;                                                   \
        MC_SAW(9);                                                \
    }                                                             \
    MC_RMW(bits, T, exchange, v)                                  \
    MC_RMW(bits, T, fetch_add, old + v)                           \
    MC_RMW(bits, T, fetch_sub, old - v)                           \
    MC_RMW(bits, T, fetch_and, old& v)                            \
    MC_RMW(bits, T, fetch_or, old | v)                            \
    MC_RMW(bits, T, fetch_xor, old ^ v)                           \
    MC_CAS(bits, T, compare_exchange_strong)                      \
    MC_CAS(bits, T, compare_exchange_weak)
MC_ATOMIC(8, unsigned char)
MC_ATOMIC(16, unsigned short)
MC_ATOMIC(32, unsigned int)
MC_ATOMIC(64, unsigned long)
void __tsan_atomic_thread_fence(int) {}
void __tsan_atomic_signal_fence(int) {}
void* __tsan_memcpy(void* d, const void* s, std::size_t n)
{
    if (n > 0)
        mc::plain(s, n, false), mc::plain(d, n, true);
    return std::memcpy(d, s, n);
}
void* __tsan_memmove(void* d, const void* s, std::size_t n)
{
    if (n > 0)
        mc::plain(s, n, false), mc::plain(d, n, true);
    return std::memmove(d, s, n);
}
void* __tsan_memset(void* d, int c, std::size_t n)
{
    if (n > 0)
        mc::plain(d, n, true);
    return std::memset(d, c, n);
}

// local statics: one thread constructs, the others wait
extern char __data_start, _end;
int __cxa_guard_acquire(long long* w)
{
    unsigned char* const g = reinterpret_cast<unsigned char*>(w);
    mc::Sched& s = mc::sched();
    mc::yield(g);
    for (;;)
    {
        if (*g == 1)
        {
            s.t[s.current].clock.join(s.sync[g]);
            mc::saw(1);
            return 0;
        }
        if (s.locked.count(g) == 0)
            break;
        mc::block_on(g);
    }
    s.locked[g] = s.current;
    mc::saw(2);
    return 1;
}
void __cxa_guard_release(long long* w)
{
    unsigned char* const g = reinterpret_cast<unsigned char*>(w);
    mc::Sched&           s = mc::sched();
    mc::yield(g);
    const char* const here = reinterpret_cast<const char*>(w);
    if (here >= &__data_start && here < &_end)  // not one of the libraries
    {
        mc::remember(g, 1);
        s.touched[reinterpret_cast<std::uintptr_t>(g)] = 1;
    }
    *g = 1;
    s.locked.erase(g);
    mc::Clock& now = s.t[s.current].clock;
    s.sync[g].join(now);
    now.c[static_cast<std::size_t>(s.current)]++;
}
void __cxa_guard_abort(long long* w) { mc::sched().locked.erase(w); }

static void* mutex_key(pthread_mutex_t* m) { return reinterpret_cast<char*>(m) + 1; }
int pthread_mutex_lock(pthread_mutex_t* m)
{
    mc::Sched& s = mc::sched();
    if (!s.active)
        return 0;
    mc::yield(m);
    if (s.locked.count(mutex_key(m)) != 0)
        mc::block_on(mutex_key(m));
    s.locked[mutex_key(m)] = s.current;
    s.t[s.current].clock.join(s.sync[mutex_key(m)]);
    mc::saw(3);
    return 0;
}
int pthread_mutex_trylock(pthread_mutex_t* m)
{
    mc::Sched& s = mc::sched();
    if (!s.active)
        return 0;
    mc::yield(m);
    if (s.locked.count(mutex_key(m)) != 0)
        return mc::saw(4), EBUSY;
    return pthread_mutex_lock(m);
}
int pthread_mutex_unlock(pthread_mutex_t* m)
{
    mc::Sched& s = mc::sched();
    if (!s.active)
        return 0;
    mc::yield(m);
    mc::Clock& now = s.t[s.current].clock;
    s.sync[mutex_key(m)].join(now);
    now.c[static_cast<std::size_t>(s.current)]++;
    s.locked.erase(mutex_key(m));
    return 0;
}
int pthread_once(pthread_once_t* o, void (*f)())
{
    mc::Sched&     s = mc::sched();
    unsigned char* g = reinterpret_cast<unsigned char*>(o);
    while (*g != 1)
    {
        if (s.locked.count(g) != 0)
        {
            mc::block_on(g);
            continue;
        }
        s.locked[g] = s.current;
        f();
        __cxa_guard_release(reinterpret_cast<long long*>(o));
    }
    s.t[s.current].clock.join(s.sync[g]);
    return 0;
}
}
#endif
