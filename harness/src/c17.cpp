// C17: the process-wide resource registers are linearizable.
#define MC_MAIN
#include <cerrno>
#include "../sched.hpp"

#include <cetl/pf17/memory_resource.hpp>

using namespace mc;
extern "C" {
void* api_get_default();
void* api_set_default(void*);
void* api_get_new_delete();
void* api_set_new_delete(void*);
void* api_null();
int   api_touch(void*);
}
namespace
{
namespace pm = cetl::pf17::pmr;
struct Dummy final : pm::memory_resource
{
    int   payload[2] = {0, 0};
    void* do_allocate(std::size_t, std::size_t) override { return nullptr; }
    void  do_deallocate(void*, std::size_t, std::size_t) override {}
    bool  do_is_equal(const pm::memory_resource& o) const noexcept override { return &o == this; }
};
Dummy dummy[16];

enum Kind
{
    kGetD,
    kSetD,
    kNullD,
    kGetN,
    kSetN,
    kNullN
};
const char* const kNames[] = {"get_default()", "set_default(r)", "set_default(null)", "new_delete()", "set_new_delete(r)", "set_new_delete(null)"};
struct Op
{
    Kind  kind;
    void* arg    = nullptr;
    void* result = nullptr;
    int   begin = -1, end = -1;
};
void* call(const Op& o)
{
    switch (o.kind)
    {
    case kGetD: return api_get_default();
    case kSetD: return api_set_default(o.arg);
    case kNullD: return api_set_default(nullptr);
    case kGetN: return api_get_new_delete();
    case kSetN: return api_set_new_delete(o.arg);
    default: return api_set_new_delete(nullptr);
    }
}
int   dummy_index(const void* p)
{
    for (int i = 0; i < 16; i++)
        if (p == static_cast<pm::memory_resource*>(&dummy[i]))
            return i;
    return -1;
}
void* resource(int i) { return static_cast<pm::memory_resource*>(&dummy[i]); }
std::string who(const void* p, const void* builtin)
{
    if (p == nullptr)
        return "null";
    if (p == builtin)
        return "built-in";
    const int i = dummy_index(p);
    return i < 0 ? "garbage" : "r" + std::to_string(i);
}

/// Is there a sequential order of the calls, respecting those that do not overlap, that explains the results?
/// set_default(null) reads one register and then sets the other: two steps. The default register takes its
/// first value from the new/delete register at some moment up to its first use.
class Linearizer
{
public:
    Linearizer(const std::vector<Op>& ops, void* builtin) : ops_(ops), step_(ops.size(), 0), temp_(ops.size(), nullptr), nd_(builtin), builtin_(builtin) {}
    bool search(void* initial_default = nullptr)
    {
        def_ = initial_default;
        return go();
    }

private:
    int steps(const Op& o) const { return o.kind == kNullD ? 2 : 1; }
    bool may_start(std::size_t i) const
    {
        for (std::size_t j = 0; j < ops_.size(); j++)
            if (j != i && step_[j] < steps(ops_[j]) && ops_[j].end < ops_[i].begin)
                return false;
        return true;
    }
    bool go()
    {
        bool all = true;
        for (std::size_t i = 0; i < ops_.size(); i++)
            all = all && step_[i] == steps(ops_[i]);
        if (all)
            return true;
        void *const d = def_, *const n = nd_;
        if (def_ == nullptr)
        {
            def_ = nd_;
            if (go())
                return true;
            def_ = nullptr;
        }
        for (std::size_t i = 0; i < ops_.size(); i++)
        {
            const Op& o = ops_[i];
            if (step_[i] == steps(o) || !may_start(i))
                continue;
            const bool  on_default = o.kind == kGetD || o.kind == kSetD || (o.kind == kNullD && step_[i] == 1);
            if (on_default && def_ == nullptr)
                continue;
            bool fits = true;
            switch (o.kind)
            {
            case kGetD: fits = o.result == def_; break;
            case kSetD: fits = o.result == def_, def_ = o.arg; break;
            case kNullD:
                if (step_[i] == 0)
                    temp_[i] = nd_;
                else
                    fits = o.result == def_, def_ = temp_[i];
                break;
            case kGetN: fits = o.result == nd_; break;
            case kSetN: fits = o.result == nd_, nd_ = o.arg; break;
            case kNullN: fits = o.result == nd_, nd_ = builtin_; break;
            }
            if (fits)
            {
                step_[i]++;
                if (go())
                    return true;
                step_[i]--;
            }
            def_ = d;
            nd_  = n;
        }
        return false;
    }
    const std::vector<Op>& ops_;
    std::vector<int>       step_;
    std::vector<void*>     temp_;
    void *                 def_ = nullptr, *nd_, *builtin_;
};

/// The built-in resource, asked for in a run of its own.
void* builtin()
{
    static void* b = nullptr;
    if (b == nullptr)
    {
        b = api_get_new_delete();
        MC_CHECK(b != nullptr && dummy_index(b) < 0, "there is no built-in resource");
        api_set_new_delete(resource(15));
        api_set_new_delete(nullptr);
        MC_CHECK(api_get_new_delete() == b, "setting null does not reinstall the built-in resource");
        rollback();
    }
    return b;
}
struct OpResult
{
    static void check(const Op& o, void* b)
    {
        MC_CHECK(o.result == b || dummy_index(o.result) >= 0, "%s returns %s", kNames[o.kind], who(o.result, b).c_str());
    }
};

/// All sequential histories.
void sequential(bool warm)
{
    rollback();
    void* const b = builtin();
    std::vector<Op> ops;
    void *          nd = b, *def = nullptr;
    if (warm)
    {
        def = api_get_default();
        MC_CHECK(def == b, "the default resource is initially %s", who(def, b).c_str());
    }
    std::vector<void*> possible;  // the first value of the default register, while it has not been used
    possible.push_back(b);
    const int depth = ex().depth;
    for (int d = 0;; d++)
    {
        Hasher h;
        h.u64(reinterpret_cast<std::uintptr_t>(nd));
        h.u64(reinterpret_cast<std::uintptr_t>(def));
        if (def == nullptr)
            for (void* p : possible)
                h.u64(reinterpret_cast<std::uintptr_t>(p));
        for (auto& m : sched().touched)
        {
            h.u64(m.first);
            h.bytes(reinterpret_cast<const void*>(m.first), m.second);
        }
        if (!boundary(h.key(), depth - d) || d == depth)
            break;
        Op o;
        const unsigned c = choose(8);
        const Kind     kinds[] = {kGetD, kNullD, kGetN, kNullN, kSetD, kSetD, kSetN, kSetN};
        o.kind = kinds[c];
        if (o.kind == kSetD || o.kind == kSetN)
            o.arg = resource(c == 4 || c == 6 ? 1 : 2);
        note("%s %s", kNames[o.kind], o.arg ? who(o.arg, b).c_str() : "");
        o.result = call(o);
        OpResult::check(o, b);
        switch (o.kind)
        {
        case kGetD:
        case kSetD:
        case kNullD:
        {
            if (def == nullptr)
            {
                bool any = false;
                for (void* p : possible)
                    any = any || p == o.result;
                MC_CHECK(any, "the default resource is first seen as %s", who(o.result, b).c_str());
            }
            else
                MC_CHECK(o.result == def, "%s returns %s, expected %s", kNames[o.kind], who(o.result, b).c_str(), who(def, b).c_str());
            def = o.kind == kGetD ? o.result : (o.kind == kSetD ? o.arg : nd);
            break;
        }
        default:
            MC_CHECK(o.result == nd, "%s returns %s, expected %s", kNames[o.kind], who(o.result, b).c_str(), who(nd, b).c_str());
            if (o.kind == kSetN)
                nd = o.arg;
            else if (o.kind == kNullN)
                nd = b;
            possible.push_back(nd);
            std::sort(possible.begin(), possible.end());
            possible.erase(std::unique(possible.begin(), possible.end()), possible.end());
        }
        transition();
    }
    rollback();
}

/// All interleavings of concurrent calls.
void concurrent(int threads, int per_thread, bool warm, int first = -1)
{
    rollback();
    void* const b = builtin();
    std::vector<Op> ops(static_cast<std::size_t>(threads * per_thread));
    // the programs: threads are interchangeable, so only ordered choices are needed
    unsigned last = 0;
    for (int t = 0; t < threads; t++)
    {
        unsigned code = 0;
        for (int i = 0; i < per_thread; i++)
        {
            const unsigned k = first >= 0 && t == 0 && i == 0 ? static_cast<unsigned>(first) : choose(6);
            code             = code * 6 + k;
            Op& o            = ops[static_cast<std::size_t>(t * per_thread + i)];
            o.kind           = static_cast<Kind>(k);
            if (o.kind == kSetD || o.kind == kSetN)
                o.arg = resource(1 + t * per_thread + i);
        }
        if (code < last)
            return;
        last = code;
    }
    for (auto& d : dummy)
        d.payload[0] = 0;
    if (warm)
        api_get_default();
    int                                time = 0;
    std::vector<std::function<void()>> bodies;
    for (int t = 0; t < threads; t++)
    {
        bodies.push_back([&, t] {
            for (int i = 0; i < per_thread; i++)
            {
                Op& o = ops[static_cast<std::size_t>(t * per_thread + i)];
                const int d = dummy_index(o.arg);
                if (d >= 0)
                {
                    // the caller prepares the resource before it is published
                    sched().quiet = true;
                    plain(&dummy[d].payload, 8, true);
                    dummy[d].payload[0] = 1;
                    sched().quiet = false;
                }
                o.begin = time++;
                saw(static_cast<std::uint64_t>(o.kind) + 100);
                note("thread %d calls %s %s", t + 1, kNames[o.kind], o.arg ? who(o.arg, b).c_str() : "");
                o.result = call(o);
                o.end    = time++;
                note("thread %d got %s", t + 1, who(o.result, b).c_str());
                OpResult::check(o, b);
                sched().quiet = true;
                const int r = dummy_index(o.result);
                if (r >= 0)
                    plain(&dummy[r].payload, 8, false);
                MC_CHECK(api_touch(o.result) == 1, "an unusable resource is returned");
                sched().quiet = false;
            }
        });
    }
    sched().extra_state = [&](Hasher& h) {
        // what is already decided about the calls: results and which ended before which began
        for (auto& o : ops)
        {
            h.u64(static_cast<std::uint64_t>(o.kind));
            h.u64(reinterpret_cast<std::uintptr_t>(o.result));
            std::uint64_t before = 0;
            for (auto& p : ops)
                before = before * 2 + (p.end >= 0 && o.begin >= 0 && p.end < o.begin ? 1U : 0U);
            h.u64(before);
            h.u64((o.begin >= 0 ? 1U : 0U) + (o.end >= 0 ? 2U : 0U));
        }
    };
    const bool finished = run_threads(std::move(bodies));
    sched().extra_state = nullptr;
    if (finished)
    {
        // what remains afterwards is part of the history
        std::vector<Op> all = ops;
        for (Kind k : {kGetD, kGetN})
        {
            Op o;
            o.kind   = k;
            o.begin  = time++;
            o.result = call(o);
            o.end    = time++;
            OpResult::check(o, b);
            note("finally %s is %s", kNames[k], who(o.result, b).c_str());
            all.push_back(o);
        }
        if (!Linearizer(all, b).search(warm ? b : nullptr))
        {
            std::string s;
            for (auto& o : all)
                s += std::string(s.empty() ? "" : "; ") + kNames[o.kind] + (o.arg ? " " + who(o.arg, b) : "") + " -> " + who(o.result, b);
            fail("no sequential order of the calls explains: %s", s.c_str());
        }
        Hasher h;
        for (auto& o : all)
        {
            h.u64(static_cast<std::uint64_t>(o.kind) * 64 + static_cast<std::uint64_t>(dummy_index(o.result) + 1));
        }
        outcome(h.key());
    }
    rollback();
}
int pt(int quick, int thorough) { return ex().depth == 1 ? quick : thorough; }
MC_SCENARIO("sequential/first-use", 6, 0, 9, 0, [] { sequential(false); });
MC_SCENARIO("sequential/used", 6, 0, 9, 0, [] { sequential(true); });
#define BY_FIRST_CALL(name, fn)                                       \
    MC_SCENARIO(name "/get_default", 1, 0, 2, 0, [] { fn(kGetD); });          \
    MC_SCENARIO(name "/set_default", 1, 0, 2, 0, [] { fn(kSetD); });          \
    MC_SCENARIO(name "/set_default_null", 1, 0, 2, 0, [] { fn(kNullD); });    \
    MC_SCENARIO(name "/get_new_delete", 1, 0, 2, 0, [] { fn(kGetN); });       \
    MC_SCENARIO(name "/set_new_delete", 1, 0, 2, 0, [] { fn(kSetN); });       \
    MC_SCENARIO(name "/set_new_delete_null", 1, 0, 2, 0, [] { fn(kNullN); })
void cold2(int k) { concurrent(2, pt(2, 3), false, k); }
void warm2(int k) { concurrent(2, 3, true, k); }
void cold3(int k) { concurrent(3, 1, false, k); }
void warm3(int k) { concurrent(3, pt(1, 2), true, k); }
BY_FIRST_CALL("threads2/first-use", cold2);
BY_FIRST_CALL("threads2/used", warm2);
BY_FIRST_CALL("threads3/first-use", cold3);
BY_FIRST_CALL("threads3/used", warm3);
}  // namespace
