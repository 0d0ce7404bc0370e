// Bounded exhaustive explorer ("stateless depth-first search with state merging").
//
// A scenario is a function that takes every nondeterministic decision through mc::choose().
// explore() runs it once per choice vector until the whole tree inside the bound has been covered.
// The current choice vector lives in a shared mapping, so that whatever kills the process
// (assertion, sanitizer, signal, hang) leaves the offending history behind for the driver.
//
// Exit codes: 0 explored, 96 property failure reported by fail(), 97 no progress (hang),
// 3 error of the harness itself (never a verdict), anything else: the process was killed while
// executing the code under test.
#ifndef MC_HPP
#define MC_HPP

#include <cassert>
#include <csetjmp>
#include <csignal>
#include <cstdarg>
#include <cstdint>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <ctime>
#include <exception>
#include <fcntl.h>
#include <string>
#include <sys/mman.h>
#include <sys/time.h>
#include <unistd.h>
#include <unordered_map>
#include <unordered_set>
#include <vector>

namespace mc
{
// ---------------------------------------------------------------------------------------- shared state
struct Choice
{
    std::uint16_t value;
    std::uint16_t n;
};
constexpr std::size_t kMaxTrail = 4096;
struct Shared
{
    std::uint64_t magic;
    std::uint64_t progress;
    std::uint32_t count;
    std::uint32_t pad;
    Choice        trail[kMaxTrail];
    char          msg[2048];
};

struct Key
{
    std::uint64_t a, b;
    bool          operator==(const Key& o) const { return a == o.a && b == o.b; }
};
struct KeyHash
{
    std::size_t operator()(const Key& k) const { return static_cast<std::size_t>(k.a ^ (k.b * 0x9E3779B97F4A7C15ULL)); }
};

/// 128-bit running hash.
class Hasher
{
public:
    void u64(std::uint64_t v)
    {
        a_ = mix(a_ ^ v);
        b_ = mix(b_ + v * 0xD6E8FEB86659FD93ULL + 0x632BE59BD9B4E019ULL);
    }
    void bytes(const void* p, std::size_t n)
    {
        const unsigned char* c = static_cast<const unsigned char*>(p);
        u64(n);
        while (n >= 8)
        {
            std::uint64_t v;
            std::memcpy(&v, c, 8);
            u64(v);
            c += 8;
            n -= 8;
        }
        if (n > 0)
        {
            std::uint64_t v = 0;
            std::memcpy(&v, c, n);
            u64(v);
        }
    }
    void str(const char* s) { bytes(s, std::strlen(s)); }
    Key  key() const { return Key{a_, b_}; }

private:
    static std::uint64_t mix(std::uint64_t x)
    {
        x ^= x >> 30;
        x *= 0xBF58476D1CE4E5B9ULL;
        x ^= x >> 27;
        x *= 0x94D049BB133111EBULL;
        x ^= x >> 31;
        return x;
    }
    std::uint64_t a_ = 0x243F6A8885A308D3ULL;
    std::uint64_t b_ = 0x13198A2E03707344ULL;
};

struct Explorer
{
    Shared*     sh      = nullptr;
    std::size_t pos     = 0;
    bool        verbose = false;
    bool        replay  = false;
    int         depth   = 0;  // operations per history
    int         faults  = 0;  // fault budget per history

    // measured
    std::uint64_t executions  = 0;
    std::uint64_t transitions = 0;
    std::uint64_t merged      = 0;
    std::uint64_t evaluations = 0;
    bool          capped      = false;
    bool          cut         = false;  // this execution reached a known state

    std::unordered_map<Key, int, KeyHash>  visited;
    std::unordered_set<Key, KeyHash>       outcomes;
    std::vector<std::string>               samples;
    std::string                            log;
    bool                                   sampling = false;
    double                                 deadline = 0;

    // what was observed, for comparison with other builds
    std::uint64_t digest   = 0;
    bool          observed = false;
    FILE*         hashes   = nullptr;

    // per execution
    std::uint64_t trace = 0;
    int  faults_left   = 0;
    bool faults_armed  = false;
    int  faults_used   = 0;
    bool in_expect     = false;
    std::jmp_buf jb;
};
inline Explorer& ex()
{
    static Explorer e;
    return e;
}

inline double now()
{
    timespec ts;
    clock_gettime(CLOCK_MONOTONIC, &ts);
    return static_cast<double>(ts.tv_sec) + 1e-9 * static_cast<double>(ts.tv_nsec);
}

__attribute__((noreturn, format(printf, 1, 2))) inline void fail(const char* fmt, ...)
{
    Explorer& e = ex();
    va_list   ap;
    va_start(ap, fmt);
    char buf[1800];
    std::vsnprintf(buf, sizeof buf, fmt, ap);
    va_end(ap);
    if (e.sh != nullptr)
    {
        std::snprintf(e.sh->msg, sizeof e.sh->msg, "%s", buf);
    }
    std::fprintf(stderr, "MC-FAIL: %s\n", buf);
    std::fflush(nullptr);
    _exit(96);
}
__attribute__((noreturn, format(printf, 1, 2))) inline void harness_error(const char* fmt, ...)
{
    va_list ap;
    va_start(ap, fmt);
    std::fprintf(stderr, "MC-HARNESS-ERROR: ");
    std::vfprintf(stderr, fmt, ap);
    std::fprintf(stderr, "\n");
    va_end(ap);
    std::fflush(nullptr);
    _exit(3);
}
#define MC_CHECK(cond, ...)          \
    do                               \
    {                                \
        if (!(cond))                 \
            ::mc::fail(__VA_ARGS__); \
    } while (false)

// ---------------------------------------------------------------------------------------- choices
inline void note(const char* fmt, ...) __attribute__((format(printf, 1, 2)));
inline void note(const char* fmt, ...)
{
    Explorer& e = ex();
    if (!e.verbose && !e.sampling)
    {
        return;
    }
    char    buf[400];
    va_list ap;
    va_start(ap, fmt);
    std::vsnprintf(buf, sizeof buf, fmt, ap);
    va_end(ap);
    if (e.verbose)
    {
        std::printf("%s\n", buf);
        std::fflush(stdout);
    }
    if (e.sampling && e.log.size() < 1500)
    {
        if (!e.log.empty())
            e.log += "; ";
        e.log += buf;
    }
}

/// The single source of nondeterminism.
inline unsigned choose(unsigned n)
{
    Explorer& e = ex();
    if (n == 0 || n > 65535)
    {
        harness_error("choose(%u)", n);
    }
    if (n == 1)
    {
        return 0;
    }
    if (e.pos < e.sh->count)
    {
        const Choice c = e.sh->trail[e.pos];
        if (c.n != n)
        {
            if (e.replay)
            {
                harness_error("replay diverged at choice %zu: %u options recorded, %u now", e.pos, c.n, n);
            }
            harness_error("nondeterministic scenario at choice %zu: %u options before, %u now", e.pos, c.n, n);
        }
        e.pos++;
        return c.value;
    }
    if (e.pos >= kMaxTrail)
    {
        harness_error("trail too long");
    }
    e.sh->trail[e.pos].value = 0;
    e.sh->trail[e.pos].n     = static_cast<std::uint16_t>(n);
    e.pos++;
    e.sh->count = static_cast<std::uint32_t>(e.pos);
    return 0;
}
inline int range(int lo, int hi)
{
    return lo + static_cast<int>(choose(static_cast<unsigned>(hi - lo + 1)));
}

/// Called by instrumented allocators and elements: shall this very operation fail now?
/// Only while the scenario has armed faults and has budget left.
inline bool fault(const char* what)
{
    Explorer& e = ex();
    if (!e.faults_armed || e.faults_left <= 0)
    {
        return false;
    }
    if (choose(2) == 1)
    {
        e.faults_left--;
        e.faults_used++;
        note("    <fault: %s>", what);
        return true;
    }
    return false;
}
struct ArmFaults
{
    bool old;
    explicit ArmFaults(bool on = true) : old(ex().faults_armed) { ex().faults_armed = on; }
    ~ArmFaults() { ex().faults_armed = old; }
};

/// A result to be compared with other builds of the same scenario.
inline void observe(const char* what, std::uint64_t v)
{
    Explorer& e = ex();
    e.observed  = true;
    e.trace     = (e.trace ^ v) * 0x9E3779B97F4A7C15ULL;
    e.trace ^= e.trace >> 29;
    if (e.verbose)
        std::printf("    %s: %lld\n", what, static_cast<long long>(v));
}

/// True if all recorded choices have been consumed: what follows has not been explored before.
inline bool fresh() { return ex().pos >= ex().sh->count; }

/// True if the checks of this state have to be made: a repeated state was checked when first reached.
inline bool unseen(const Key& k)
{
    Explorer& e = ex();
    if (e.replay)
        return true;
    return fresh() && e.visited.find(k) == e.visited.end();
}
/// State boundary. Returns false if the state was already expanded with at least this remaining depth.
inline bool boundary(const Key& k, int remaining)
{
    Explorer& e = ex();
    e.sh->progress++;
    if (!fresh() || e.replay)
    {
        return true;
    }
    auto it = e.visited.find(k);
    if (it != e.visited.end())
    {
        if (it->second >= remaining)
        {
            e.merged++;
            e.cut = true;
            return false;
        }
        it->second = remaining;
        return true;
    }
    e.visited.emplace(k, remaining);
    return true;
}
/// One operation of the code under test was applied (counted only when explored for the first time).
inline void transition()
{
    if (fresh())
    {
        ex().transitions++;
    }
}
/// One observed result, for counting distinct outcomes.
inline void outcome(const Key& k)
{
    Explorer& e = ex();
    e.evaluations++;
    if (e.outcomes.size() < 4000000)
        e.outcomes.insert(k);
}

// ---------------------------------------------------------------------------------------- expected aborts
// expect_abort(fn): runs fn and returns true if it ended in std::terminate, abort() or a failed assert.
// The stack is left by longjmp; nothing on it may own resources the scenario checks afterwards.
template <typename F>
inline bool expect_abort(F&& f)
{
    Explorer& e = ex();
    e.in_expect = true;
    if (setjmp(e.jb) == 0)
    {
        f();
        e.in_expect = false;
        return false;
    }
    e.in_expect = false;
    return true;
}
__attribute__((noreturn)) inline void on_abort(const char* what)
{
    Explorer& e = ex();
    if (e.in_expect)
    {
        std::longjmp(e.jb, 1);
    }
    fail("%s", what);
}
inline void terminate_handler() { on_abort("std::terminate was called"); }

inline void watchdog(int)
{
    static std::uint64_t last  = ~0ULL;
    static int           stuck = 0;
    Explorer&            e     = ex();
    if (e.sh->progress == last)
    {
        if (++stuck >= 3)
        {
            static const char m[] = "MC-FAIL: no progress (operation does not finish)\n";
            std::strcpy(e.sh->msg, "no progress: an operation does not finish");
            if (write(2, m, sizeof m - 1) < 0)
            {
            }
            _exit(97);
        }
    }
    else
    {
        stuck = 0;
        last  = e.sh->progress;
    }
}

// ---------------------------------------------------------------------------------------- main loop
using Fn = void (*)();
struct Scenario
{
    const char* name;
    int         quick_depth, quick_faults;
    int         thorough_depth, thorough_faults;
    Fn          fn;
};
inline std::vector<Scenario>& scenarios()
{
    static std::vector<Scenario> v;
    return v;
}
struct Register
{
    Register(const char* n, int qd, int qf, int td, int tf, Fn f) { scenarios().push_back(Scenario{n, qd, qf, td, tf, f}); }
};
#define MC_CAT2(a, b) a##b
#define MC_CAT(a, b) MC_CAT2(a, b)
#define MC_SCENARIO(name, qd, qf, td, tf, ...) \
    static ::mc::Register MC_CAT(mc_reg_, __COUNTER__)(name, qd, qf, td, tf, __VA_ARGS__)

/// Hook run at the end of each execution (leak checks); set by track.hpp.
inline void (*&end_hook())()
{
    static void (*h)() = nullptr;
    return h;
}
inline void (*&begin_hook())()
{
    static void (*h)() = nullptr;
    return h;
}

inline void run_once(const Scenario& s)
{
    Explorer& e    = ex();
    e.pos          = 0;
    e.cut          = false;
    e.faults_left  = e.faults;
    e.faults_used  = 0;
    e.faults_armed = false;
    e.trace        = 0;
    e.log.clear();
    e.sh->progress++;
    if (begin_hook() != nullptr)
        begin_hook()();
    s.fn();
    e.faults_armed = false;
    if (end_hook() != nullptr)
        end_hook()();
    if (e.pos < e.sh->count)
    {
        harness_error("execution ended after %zu of %u recorded choices", e.pos, e.sh->count);
    }
    e.digest = (e.digest ^ e.trace) * 0x9E3779B97F4A7C15ULL;
    e.digest ^= e.digest >> 31;
    if (e.hashes != nullptr)
        std::fwrite(&e.trace, sizeof e.trace, 1, e.hashes);
}

inline std::string json_escape(const std::string& s)
{
    std::string o;
    for (char c : s)
    {
        if (c == '"' || c == '\\')
        {
            o += '\\';
            o += c;
        }
        else if (static_cast<unsigned char>(c) < 32)
            o += ' ';
        else
            o += c;
    }
    return o;
}

inline int main(int argc, char** argv)
{
    Explorer&   e = ex();
    std::string scenario, trailfile, out, replayfile, tier = "quick";
    double      limit     = 0;
    bool        whole     = false;
    int         depth_arg = -1, faults_arg = -1;
    long long   nth       = -1;
    for (int i = 1; i < argc; i++)
    {
        const std::string a = argv[i];
        auto              nx = [&]() -> const char* {
            if (i + 1 >= argc)
                harness_error("missing argument");
            return argv[++i];
        };
        if (a == "--list")
        {
            for (auto& s : scenarios())
                std::printf("%s %d %d %d %d\n", s.name, s.quick_depth, s.quick_faults, s.thorough_depth, s.thorough_faults);
            return 0;
        }
        else if (a == "--scenario")
            scenario = nx();
        else if (a == "--trail")
            trailfile = nx();
        else if (a == "--out")
            out = nx();
        else if (a == "--replay")
            replayfile = nx();
        else if (a == "--tier")
            tier = nx();
        else if (a == "--limit")
            limit = std::atof(nx());
        else if (a == "--depth")
            depth_arg = std::atoi(nx());
        else if (a == "--faults")
            faults_arg = std::atoi(nx());
        else if (a == "--hashes")  // one number per execution
            e.hashes = std::fopen(nx(), "w");
        else if (a == "--nth")  // only say the choices of this execution
            nth = std::atoll(nx());
        else
            harness_error("unknown argument %s", a.c_str());
    }
    (void) whole;
    const Scenario* sc = nullptr;
    for (auto& s : scenarios())
        if (scenario == s.name)
            sc = &s;
    if (sc == nullptr)
        harness_error("no scenario %s", scenario.c_str());
    e.depth  = depth_arg >= 0 ? depth_arg : (tier == "thorough" ? sc->thorough_depth : sc->quick_depth);
    e.faults = faults_arg >= 0 ? faults_arg : (tier == "thorough" ? sc->thorough_faults : sc->quick_faults);

    if (trailfile.empty())
    {
        e.sh = static_cast<Shared*>(mmap(nullptr, sizeof(Shared), PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0));
    }
    else
    {
        const int fd = open(trailfile.c_str(), O_RDWR | O_CREAT | O_TRUNC, 0644);
        if (fd < 0 || ftruncate(fd, sizeof(Shared)) != 0)
            harness_error("cannot create %s", trailfile.c_str());
        e.sh = static_cast<Shared*>(mmap(nullptr, sizeof(Shared), PROT_READ | PROT_WRITE, MAP_SHARED, fd, 0));
        close(fd);
    }
    if (e.sh == MAP_FAILED)
        harness_error("mmap");
    e.sh->magic = 0x4D43545241494CULL;
    e.sh->count = 0;

    std::set_terminate(&terminate_handler);
    std::signal(SIGVTALRM, &watchdog);
    itimerval tv;
    std::memset(&tv, 0, sizeof tv);
    tv.it_interval.tv_sec = 5;
    tv.it_value.tv_sec    = 5;
    setitimer(ITIMER_VIRTUAL, &tv, nullptr);

    if (!replayfile.empty())
    {
        // text: "value/n value/n ..."
        FILE* f = std::fopen(replayfile.c_str(), "r");
        if (f == nullptr)
            harness_error("cannot read %s", replayfile.c_str());
        unsigned v, n;
        while (std::fscanf(f, "%u/%u", &v, &n) == 2)
        {
            if (e.sh->count >= kMaxTrail)
                harness_error("replay too long");
            e.sh->trail[e.sh->count].value = static_cast<std::uint16_t>(v);
            e.sh->trail[e.sh->count].n     = static_cast<std::uint16_t>(n);
            e.sh->count++;
        }
        std::fclose(f);
        e.verbose = true;
        e.replay  = true;
        run_once(*sc);
        std::printf("REPLAY-OK: no violation\n");
        return 0;
    }

    const double t0 = now();
    e.deadline      = limit > 0 ? t0 + limit : 0;
    bool more       = true;
    std::uint64_t next_sample = 1;
    while (more)
    {
        e.sampling = (e.executions + 1 == next_sample);
        run_once(*sc);
        if (nth == static_cast<long long>(e.executions))
        {
            for (std::uint32_t i = 0; i < e.sh->count; i++)
                std::printf("%u/%u ", e.sh->trail[i].value, e.sh->trail[i].n);
            std::printf("\n");
            return 0;
        }
        e.executions++;
        if (e.sampling)
        {
            if (e.samples.size() < 12)
                e.samples.push_back(e.log);
            next_sample = next_sample * 4 + 1;
        }
        // next choice vector
        more = false;
        while (e.sh->count > 0)
        {
            Choice& c = e.sh->trail[e.sh->count - 1];
            if (c.value + 1 < c.n)
            {
                c.value++;
                more = true;
                break;
            }
            e.sh->count--;
        }
        if (more && e.deadline > 0 && (e.executions & 63) == 0 && now() > e.deadline)
        {
            e.capped = true;
            break;
        }
    }
    FILE* f = out.empty() ? stdout : std::fopen(out.c_str(), "w");
    if (f == nullptr)
        harness_error("cannot write %s", out.c_str());
    std::fprintf(f,
                 "{\"scenario\":\"%s\",\"depth\":%d,\"faults\":%d,\"states\":%zu,\"transitions\":%llu,\"executions\":%llu,"
                 "\"merged\":%llu,\"evaluations\":%llu,\"outcomes\":%zu,\"exhaustive\":%s,\"wall\":%.3f,\"samples\":[",
                 sc->name,
                 e.depth,
                 e.faults,
                 e.visited.size(),
                 static_cast<unsigned long long>(e.transitions),
                 static_cast<unsigned long long>(e.executions),
                 static_cast<unsigned long long>(e.merged),
                 static_cast<unsigned long long>(e.evaluations),
                 e.outcomes.size(),
                 e.capped ? "false" : "true",
                 now() - t0);
    for (std::size_t i = 0; i < e.samples.size(); i++)
        std::fprintf(f, "%s\"%s\"", i ? "," : "", json_escape(e.samples[i]).c_str());
    std::fprintf(f, "]");
    if (e.observed && !e.capped)
        std::fprintf(f, ",\"digest\":\"%016llx\"", static_cast<unsigned long long>(e.digest));
    std::fprintf(f, "}\n");
    if (e.hashes != nullptr)
        std::fclose(e.hashes);
    if (f != stdout)
        std::fclose(f);
    std::fflush(nullptr);
    _exit(0);
}
}  // namespace mc

// A failed assert() inside the library ends up here instead of in the C library.
extern "C" __attribute__((noreturn, used)) inline void mc_assert_fail(const char* expr, const char* file, unsigned line)
{
    char        buf[900];
    const char* base = std::strrchr(file, '/');
    std::snprintf(buf, sizeof buf, "assertion failed: %s (%s:%u)", expr, base != nullptr ? base + 1 : file, line);
    ::mc::on_abort(buf);
}
#ifdef MC_MAIN
extern "C" void __assert_fail(const char* expr, const char* file, unsigned int line, const char*) noexcept(true)
{
    mc_assert_fail(expr, file, line);
}
extern "C" __attribute__((used)) const char* __asan_default_options()
{
    return "detect_leaks=0:malloc_context_size=0:quarantine_size_mb=2:thread_local_quarantine_size_kb=64:"
           "hard_rss_limit_mb=3000:abort_on_error=0:exitcode=98:detect_stack_use_after_return=0:"
           "allocator_may_return_null=1:max_allocation_size_mb=512:color=never";
}
extern "C" __attribute__((used)) const char* __ubsan_default_options()
{
    return "print_stacktrace=0:exitcode=98:color=never";
}
int main(int argc, char** argv) { return ::mc::main(argc, argv); }
#endif

#endif
