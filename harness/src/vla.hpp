// World of two variable-length arrays and their plain-sequence models. Shared by C01..C07.
#ifndef VLA_WORLD_HPP
#define VLA_WORLD_HPP

#include "../track.hpp"

#include <cetl/variable_length_array.hpp>

#include <limits>
#include <memory>
#include <stdexcept>

namespace vla
{
using namespace mc;

enum Realloc
{
    kNoRealloc,
    kInPlace,  // reallocation succeeds only in place (blocks are never extended here, so it shrinks only)
    kMoving    // reallocation always moves the bytes to a new block
};

/// Recording allocator. Ae: always equal, Cc/Ca/Ma: select-on-copy gives a different one, POCCA, POCMA.
template <typename T, bool Ae, bool Ca, bool Ma, bool Cc, int R>
struct AllocBase
{
    using value_type                             = T;
    using is_always_equal                        = std::integral_constant<bool, Ae>;
    using propagate_on_container_copy_assignment = std::integral_constant<bool, Ca>;
    using propagate_on_container_move_assignment = std::integral_constant<bool, Ma>;
    using propagate_on_container_swap            = std::false_type;

    int         id;
    std::size_t limit;  // in elements

    explicit AllocBase(int i = 0, std::size_t l = 1000) noexcept : id(i), limit(l) {}
    template <typename U>
    AllocBase(const AllocBase<U, Ae, Ca, Ma, Cc, R>& o) noexcept : id(o.id), limit(o.limit)
    {
    }
    template <typename U>
    struct rebind
    {
        using other = AllocBase<U, Ae, Ca, Ma, Cc, R>;
    };

    T* allocate(std::size_t n)
    {
        if (n > (1UL << 20))
        {
            fail("allocation of %zu elements requested", n);
        }
        void* const p = block_alloc(id, n * sizeof(T), alignof(T));
#if defined(__cpp_exceptions)
        if (p == nullptr)
        {
            throw std::bad_alloc();
        }
#endif
        return static_cast<T*>(p);
    }
    void deallocate(T* p, std::size_t n)
    {
        if (p == nullptr)
        {
            MC_CHECK(n == 0, "null block released with a count of %zu", n);
            return;
        }
        block_free(id, p, n * sizeof(T), alignof(T));
    }
    std::size_t max_size() const noexcept { return limit; }

    AllocBase select_on_container_copy_construction() const { return Cc ? AllocBase(id + 4, limit) : *this; }

    friend bool operator==(const AllocBase& a, const AllocBase& b) noexcept { return Ae || res_equal(a.id, b.id); }
    friend bool operator!=(const AllocBase& a, const AllocBase& b) noexcept { return !(a == b); }
};
/// The same with a reallocate() member.
template <typename T, bool Ae, bool Ca, bool Ma, bool Cc, int R>
struct ReAlloc : AllocBase<T, Ae, Ca, Ma, Cc, R>
{
    using Base = AllocBase<T, Ae, Ca, Ma, Cc, R>;
    using Base::Base;
    ReAlloc() noexcept : Base() {}
    template <typename U>
    ReAlloc(const ReAlloc<U, Ae, Ca, Ma, Cc, R>& o) noexcept : Base(o.id, o.limit)
    {
    }
    template <typename U>
    struct rebind
    {
        using other = ReAlloc<U, Ae, Ca, Ma, Cc, R>;
    };
    ReAlloc select_on_container_copy_construction() const { return Cc ? ReAlloc(this->id + 4, this->limit) : *this; }

    T* reallocate(T* p, std::size_t oldn, std::size_t newn)
    {
        if (p == nullptr)
        {
            MC_CHECK(oldn == 0, "null block reallocated with a count of %zu", oldn);
            return nullptr;  // nothing to resize
        }
        const Block* b = find_block(p);
        MC_CHECK(b != nullptr, "reallocation of a block that was never handed out");
        MC_CHECK(b->size == oldn * sizeof(T), "reallocation with a wrong old size");
        if (R == kInPlace)
        {
            return nullptr;
        }
        // A moving reallocation needs memory for the new block: it cannot succeed once memory has run out.
        if (ex().faults_used > 0 && ex().faults_armed)
        {
            return nullptr;
        }
        void* const q = block_alloc(this->id, newn * sizeof(T), alignof(T));
        if (q == nullptr)
        {
            return nullptr;
        }
        std::memcpy(q, p, sizeof(T) * std::min(oldn, newn));
        // Elements of types that may not be moved this way are still registered at their old address.
        block_free(this->id, p, oldn * sizeof(T), alignof(T));
        return static_cast<T*>(q);
    }
};
template <typename T, bool Ae = false, bool Ca = false, bool Ma = false, bool Cc = false, int R = kNoRealloc>
using Alloc = std::conditional_t<R == kNoRealloc, AllocBase<T, Ae, Ca, Ma, Cc, R>, ReAlloc<T, Ae, Ca, Ma, Cc, R>>;

// ------------------------------------------------------------------------------------------- element access
template <typename T>
struct ElemOps
{
    static constexpr int tracked_type = T::type;
    static T             make(int v) { return T(v); }
    static int           norm(int v) { return v; }
};
template <>
struct ElemOps<int>
{
    static constexpr int tracked_type = -1;
    static int           make(int v) { return v; }
    static int           norm(int v) { return v; }
};
template <>
struct ElemOps<unsigned char>
{
    static constexpr int tracked_type = -1;
    static unsigned char make(int v) { return static_cast<unsigned char>(v); }
    static int           norm(int v) { return v; }
};
template <>
struct ElemOps<bool>
{
    static constexpr int tracked_type = -1;
    static bool          make(int v) { return (v & 1) != 0; }
    static int           norm(int v) { return v & 1; }
};

struct Model
{
    std::vector<int> v;
    std::size_t      limit = 0;
    int              alloc = 0;
};

enum class Out
{
    ok,
    length,
    alloc,
    injected,
    other
};
inline const char* name(Out o)
{
    switch (o)
    {
    case Out::ok: return "success";
    case Out::length: return "length_error";
    case Out::alloc: return "bad_alloc";
    case Out::injected: return "element exception";
    case Out::other: return "unexpected exception";
    }
    return "?";
}
template <typename F>
inline Out guarded(F&& f)
{
#if defined(__cpp_exceptions)
    try
    {
        ArmFaults arm;
        f();
        return Out::ok;
    } catch (const std::length_error&)
    {
        return Out::length;
    } catch (const std::bad_alloc&)
    {
        return Out::alloc;
    } catch (const Injected&)
    {
        return Out::injected;
    } catch (...)
    {
        return Out::other;
    }
#else
    ArmFaults arm;
    f();
    return Out::ok;
#endif
}
#if defined(__cpp_exceptions)
constexpr bool kExc = true;
#else
constexpr bool kExc = false;
#endif

/// What the histories may contain. Chosen per scenario.
struct Cfg
{
    int  nmax;         // largest count argument
    int  nvals;        // values 1..nvals
    bool two;          // operations on both arrays, not only the first
    bool transfers;    // copy / move operations between the arrays
    bool recreate;     // constructors as operations
    bool alias;        // arguments referring to own elements
    bool limits;       // limits chosen from {0..limit_max}, otherwise unlimited
    int  limit_max;
    int  allocs;       // number of distinct allocators to choose from
    int  alloc_limit;  // allocator's own limit in elements (bytes for bool), 0: none
    int  init_max;     // initial size of the first array
    int  init_b;       // initial size of the second array
    const int* sizes = nullptr;  // if given, counts, limits and initial sizes are chosen from these
    int  nsizes       = 0;
};
/// Counts around powers of two, and the growth steps of the capacity, up to beyond a thousand.
constexpr int kLong[]  = {0, 1, 7, 8, 9, 16, 31, 33, 63, 64, 65, 127, 128, 129, 240, 255, 256, 257, 511, 513, 1025};
constexpr int kFew[]   = {0, 1, 32, 64, 129, 257, 1025};
constexpr int kPair[]  = {0, 1, 33, 129};
constexpr int kNPair   = static_cast<int>(sizeof(kPair) / sizeof(kPair[0]));
constexpr int kNFew    = static_cast<int>(sizeof(kFew) / sizeof(kFew[0]));
constexpr int kNLong   = static_cast<int>(sizeof(kLong) / sizeof(kLong[0]));

/// Strong: a failed growth leaves everything unchanged.
template <typename T>
struct StrongOnGrow : std::integral_constant<bool, std::is_nothrow_move_constructible<T>::value || std::is_copy_constructible<T>::value>
{};

template <typename T, typename A>
struct World
{
    using V                        = cetl::VariableLengthArray<T, A>;
    static constexpr bool kBool    = std::is_same<T, bool>::value;
    static constexpr bool kCopy    = std::is_copy_constructible<T>::value;
    using CopyTag                  = std::integral_constant<bool, kCopy>;
    using BoolTag                  = std::integral_constant<bool, kBool>;
    using AT                       = std::allocator_traits<A>;
    using VA                       = typename V::allocator_type;
    static constexpr bool kTracked = ElemOps<T>::tracked_type >= 0;

    Cfg     cfg;
    Slot<V> s[2];
    Model   m[2];

    static std::size_t nolimit() { return std::numeric_limits<std::size_t>::max(); }
    std::size_t        unit() const { return kBool ? 8 : 1; }
    std::size_t        alloc_cap() const
    {
        return cfg.alloc_limit > 0 ? static_cast<std::size_t>(cfg.alloc_limit) * unit() : nolimit();
    }
    VA mk(int id) const { return VA(A(id, cfg.alloc_limit > 0 ? static_cast<std::size_t>(cfg.alloc_limit) : 1000000U)); }
    std::size_t effective(const Model& x) const { return std::min(x.limit, cfg.alloc_limit > 0 ? alloc_cap() : 1000000U * unit()); }
    static int  n(int v) { return ElemOps<T>::norm(v); }

    // ---- observation
    static std::vector<int> contents(const V& c)
    {
        std::vector<int> r;
        for (std::size_t i = 0; i < c.size(); i++)
            r.push_back(rd(c, i));
        return r;
    }
    static int rd(const V& c, std::size_t i) { return rd_(c, i, BoolTag{}); }
    static int rd_(const V& c, std::size_t i, std::true_type) { return c[i] ? 1 : 0; }
    static int rd_(const V& c, std::size_t i, std::false_type) { return val<T>(c[i]); }

    static std::string show(const std::vector<int>& v)
    {
        std::string r = "[";
        for (int x : v)
            r += std::to_string(x) + " ";
        return r + "]";
    }

    template <typename It>
    static int deref(It it)
    {
        return ElemVal<decltype(*it)>::get(*it);
    }
    template <typename R>
    struct ElemVal
    {
        template <typename X>
        static int get(X&& x)
        {
            return get_(x, BoolTag{});
        }
        template <typename X>
        static int get_(X& x, std::true_type)
        {
            return static_cast<bool>(x) ? 1 : 0;
        }
        template <typename X>
        static int get_(X& x, std::false_type)
        {
            return val<T>(x);
        }
    };

    void check_data(V& c, std::true_type) { (void) c; }
    void check_data(V& c, std::false_type)
    {
        const V& k = c;
        if (c.size() > 0)
        {
            MC_CHECK(c.data() == &c[0] && k.data() == &k[0] && c.begin() == c.data(), "data() is not the first element");
            MC_CHECK(reinterpret_cast<std::uintptr_t>(c.data()) % alignof(T) == 0, "misaligned elements");
        }
    }
    void surface(int i)
    {
        V&                      c = *s[i];
        const V&                k = c;
        const std::vector<int>& e = m[i].v;
        MC_CHECK(c.size() == e.size(), "array %d: size %zu, expected %zu", i, c.size(), e.size());
        const std::vector<int> got = contents(c);
        MC_CHECK(got == e, "array %d: elements %s, expected %s", i, show(got).c_str(), show(e).c_str());
        MC_CHECK(c.empty() == e.empty(), "array %d: empty() is wrong", i);
        MC_CHECK(c.capacity() >= c.size(), "array %d: size %zu exceeds capacity %zu", i, c.size(), c.capacity());
        MC_CHECK(c.capacity() <= c.max_size(), "array %d: capacity %zu exceeds maximum %zu", i, c.capacity(), c.max_size());
        if (effective(m[i]) < 1000000U)
        {
            MC_CHECK(c.max_size() == effective(m[i]), "array %d: maximum size %zu, expected %zu", i, c.max_size(), effective(m[i]));
        }
        std::vector<int> it1, it2, it3;
        for (auto it = c.begin(); it != c.end(); ++it)
            it1.push_back(deref(it));
        for (auto it = k.begin(); it != k.end(); ++it)
            it2.push_back(deref(it));
        for (auto it = k.cbegin(); it != k.cend(); ++it)
            it3.push_back(deref(it));
        MC_CHECK(it1 == e && it2 == e && it3 == e, "array %d: iteration differs from the elements", i);
        MC_CHECK(static_cast<std::size_t>(c.end() - c.begin()) == e.size(), "array %d: iterator distance", i);
        if (!e.empty())
        {
            MC_CHECK(ElemVal<int>::get(c.front()) == e.front() && cfront(k) == e.front(), "array %d: front()", i);
            MC_CHECK(ElemVal<int>::get(c.back()) == e.back() && cback(k) == e.back(), "array %d: back()", i);
        }
        check_data(c, BoolTag{});
        MC_CHECK(k.get_allocator().id == m[i].alloc, "array %d: allocator %d, expected %d", i, k.get_allocator().id, m[i].alloc);
#if defined(__cpp_exceptions)
        for (std::size_t p = 0; p <= e.size() + 1; p++)
        {
            bool threw = false, threwk = false;
            int  x = -1, y = -1;
            try
            {
                x = at_(c, p, BoolTag{});
            } catch (const std::out_of_range&)
            {
                threw = true;
            }
            try
            {
                y = at_(k, p, BoolTag{});
            } catch (const std::out_of_range&)
            {
                threwk = true;
            }
            MC_CHECK(threw == (p >= e.size()) && threwk == threw, "array %d: at(%zu) with %zu elements", i, p, e.size());
            if (!threw)
            {
                MC_CHECK(x == e[p] && y == e[p], "array %d: at(%zu) yields a wrong element", i, p);
            }
        }
#endif
    }
    template <typename C>
    static int at_(C& c, std::size_t p, std::true_type)
    {
        return static_cast<bool>(c.at(p)) ? 1 : 0;
    }
    template <typename C>
    static int at_(C& c, std::size_t p, std::false_type)
    {
        return val<T>(c.at(p));
    }
    static int cfront(const V& k) { return cf_(k, BoolTag{}); }
    static int cf_(const V& k, std::true_type) { return k.front() ? 1 : 0; }
    static int cf_(const V& k, std::false_type) { return val<T>(k.front()); }
    static int cback(const V& k) { return cb_(k, BoolTag{}); }
    static int cb_(const V& k, std::true_type) { return k.back() ? 1 : 0; }
    static int cb_(const V& k, std::false_type) { return val<T>(k.back()); }

    void check_all()
    {
        surface(0);
        surface(1);
        const bool eq = (m[0].v == m[1].v);
        MC_CHECK((*s[0] == *s[1]) == eq && (*s[1] == *s[0]) == eq, "== between the arrays should be %d", eq);
        MC_CHECK((*s[0] != *s[1]) == !eq, "!= between the arrays should be %d", !eq);
        MC_CHECK(*s[0] == *s[0] && !(*s[0] != *s[0]), "array differs from itself");
        check_lifetimes();
    }
    void check_lifetimes()
    {
        if (kTracked)
        {
            const std::size_t live = live_objects(ElemOps<T>::tracked_type);
            MC_CHECK(live == m[0].v.size() + m[1].v.size(), "%zu live elements, but the arrays hold %zu", live, m[0].v.size() + m[1].v.size());
        }
        MC_CHECK(live_blocks() <= 2, "%zu blocks held by two arrays", live_blocks());
    }
    Key key()
    {
        StateHash h;
        for (auto& x : m)
        {
            h.h.u64(x.v.size());
            for (int e : x.v)
                h.h.u64(static_cast<std::uint64_t>(e + 1000));
            h.h.u64(x.limit);
            h.h.u64(static_cast<std::uint64_t>(x.alloc));
        }
        h.h.u64(static_cast<std::uint64_t>(ex().faults_left));
        return h.finish();
    }

    // ---- failure rules
    enum class Rule
    {
        strong,      // nothing changes
        grow_value,  // resize: without exceptions a prefix of the result that keeps the old elements
        assign,      // any valid contents made of old and new values
        copy,        // destination valid, source unchanged
        move,        // both valid
    };
    int         op_faults_before = 0;
    Model       old_[2];
    std::size_t old_cap_[2];

    void begin_op()
    {
        op_faults_before = ex().faults_used;
        for (int i = 0; i < 2; i++)
        {
            old_[i]     = m[i];
            old_cap_[i] = s[i].alive ? s[i]->capacity() : 0;
        }
    }
    bool faulted() const { return ex().faults_used > op_faults_before; }

    static bool subset(const std::vector<int>& got, const std::vector<int>& a, const std::vector<int>& b, const std::vector<int>& c)
    {
        for (int x : got)
        {
            const bool in = std::find(a.begin(), a.end(), x) != a.end() || std::find(b.begin(), b.end(), x) != b.end() ||
                            std::find(c.begin(), c.end(), x) != c.end() || x == kMovedFrom || x == 0;
            if (!in)
                return false;
        }
        return true;
    }
    static bool is_prefix(const std::vector<int>& p, const std::vector<int>& f)
    {
        return p.size() <= f.size() && std::equal(p.begin(), p.end(), f.begin());
    }

    /// The operation was expected to produce `want` in array t (and source_after in the other array for moves).
    void settle(int t, Out out, const Model& want, bool too_long, Rule rule, const std::vector<int>* src_after = nullptr)
    {
        const int o = 1 - t;
        if (!faulted())
        {
            if (kExc)
            {
                const Out expect = too_long ? Out::length : Out::ok;
                MC_CHECK(out == expect, "operation ended with %s, expected %s", name(out), name(expect));
            }
            if (!too_long)
            {
                m[t] = want;
                if (src_after != nullptr)
                    m[o].v = *src_after;
                return;
            }
            if (kExc)
            {
                return;  // nothing changes
            }
            // Without exceptions: clamped to the limit.
            resync_noexc(t, want, rule);
            return;
        }
        // A fault was injected inside this operation.
        if (kExc)
        {
            MC_CHECK(out != Out::other, "operation ended with an unexpected exception");
            if (out == Out::ok)
            {
                // Recovered (possible only for allocation failures): then the result must be complete.
                m[t] = want;
                if (src_after != nullptr)
                    m[o].v = *src_after;
                return;
            }
            if (rule == Rule::strong || rule == Rule::grow_value)
            {
                if (StrongOnGrow<T>::value)
                {
                    return;  // everything as before, verified by the caller
                }
                rule = Rule::assign;
            }
            const std::vector<int> got  = contents(*s[t]);
            MC_CHECK(subset(got, old_[t].v, want.v, old_[o].v), "after a failure the array holds values that were never stored: %s", show(got).c_str());
            m[t].v = got;
            if (rule == Rule::move)
            {
                const std::vector<int> src = contents(*s[o]);
                MC_CHECK(subset(src, old_[o].v, old_[o].v, old_[o].v), "after a failed move the source holds foreign values");
                m[o].v = src;
            }
            // Limits and allocator may or may not have been taken over.
            const std::size_t ms = s[t]->max_size();
            Model             alt = m[t];
            alt.limit             = want.limit;
            if (ms == effective(alt))
                m[t].limit = want.limit;
            const int id = s[t]->get_allocator().id;
            MC_CHECK(id == m[t].alloc || id == want.alloc, "allocator %d after a failure", id);
            m[t].alloc = id;
            return;
        }
        resync_noexc(t, want, rule, src_after);
    }
    void resync_noexc(int t, const Model& want, Rule rule, const std::vector<int>* src_after = nullptr)
    {
        const int              o   = 1 - t;
        const std::vector<int> got = contents(*s[t]);
        switch (rule)
        {
        case Rule::strong:
            if (src_after == nullptr && got == want.v)
            {
                m[t] = want;
                return;
            }
            MC_CHECK(got == old_[t].v, "failed operation changed the elements: %s, before %s", show(got).c_str(), show(old_[t].v).c_str());
            return;
        case Rule::grow_value:
            MC_CHECK(is_prefix(got, want.v) && got.size() >= old_[t].v.size(), "failed resize left %s, before %s, request %s", show(got).c_str(), show(old_[t].v).c_str(), show(want.v).c_str());
            m[t].v = got;
            return;
        case Rule::assign:
            MC_CHECK(is_prefix(got, want.v) || got == old_[t].v, "failed assign left %s, request %s", show(got).c_str(), show(want.v).c_str());
            m[t].v = got;
            return;
        case Rule::copy:
        case Rule::move:
        {
            MC_CHECK(is_prefix(got, want.v) || got == old_[t].v, "failed transfer left %s in the destination, source %s", show(got).c_str(), show(want.v).c_str());
            const std::vector<int> src = contents(*s[o]);
            if (rule == Rule::move && got == want.v && src_after != nullptr && src == *src_after)
            {
                m[o].v = src;
            }
            else
            {
                MC_CHECK(src == old_[o].v, "failed transfer changed the source: %s, before %s", show(src).c_str(), show(old_[o].v).c_str());
            }
            m[t].v                = got;
            const std::size_t ms  = s[t]->max_size();
            Model             alt = m[t];
            alt.limit             = want.limit;
            if (ms == effective(alt))
                m[t].limit = want.limit;
            const int id = s[t]->get_allocator().id;
            MC_CHECK(id == m[t].alloc || id == want.alloc, "allocator %d after a failure", id);
            m[t].alloc = id;
            return;
        }
        }
    }

    // ---- operations that need a copyable element
    static T make(int v) { return ElemOps<T>::make(v); }

    // Every call is given values made outside of the fault window.
    Out push_copy(V& c, int v, std::true_type)
    {
        const T x = make(v);
        return guarded([&] { c.push_back(x); });
    }
    Out push_copy(V& c, int v, std::false_type) { return push_move(c, v); }
    Out push_move(V& c, int v)
    {
        T x = make(v);
        return guarded([&] { c.push_back(std::move(x)); });
    }
    Out emplace1(V& c, int v, std::true_type) { return guarded([&] { c.emplace_back(make(v)); }); }
    Out emplace1(V& c, int v, std::false_type) { return guarded([&] { c.emplace_back(v); }); }
    Out emplace_val(V& c, int v)
    {
        T x = make(v);
        return guarded([&] { c.emplace_back(std::move(x)); });
    }
    Out resize_v(V& c, std::size_t k, int v, std::true_type)
    {
        const T x = make(v);
        return guarded([&] { c.resize(k, x); });
    }
    Out resize_v(V& c, std::size_t k, int, std::false_type) { return guarded([&] { c.resize(k); }); }
    Out assign_v(V& c, std::size_t k, int v, std::true_type)
    {
        const T x = make(v);
        return guarded([&] { c.assign(k, x); });
    }
    Out assign_v(V&, std::size_t, int, std::false_type) { return Out::ok; }
    Out alias_push(V& c, std::size_t i, std::true_type) { return guarded([&] { c.push_back(c[i]); }); }
    Out alias_push(V&, std::size_t, std::false_type) { return Out::ok; }
    Out alias_emplace(V& c, std::size_t i, std::true_type) { return guarded([&] { c.emplace_back(c[i]); }); }
    Out alias_emplace(V&, std::size_t, std::false_type) { return Out::ok; }
    Out alias_push_move(V& c, std::size_t i, std::false_type) { return guarded([&] { c.push_back(std::move(c[i])); }); }
    Out alias_push_move(V& c, std::size_t i, std::true_type) { return guarded([&] { c.push_back(c[i]); }); }
    Out alias_resize(V& c, std::size_t k, std::size_t i, std::true_type) { return guarded([&] { c.resize(k, c[i]); }); }
    Out alias_resize(V&, std::size_t, std::size_t, std::false_type) { return Out::ok; }
    Out alias_assign(V& c, std::size_t k, std::size_t i, std::true_type) { return guarded([&] { c.assign(k, c[i]); }); }
    Out alias_assign(V&, std::size_t, std::size_t, std::false_type) { return Out::ok; }
    Out copy_assign(V& d, const V& r, std::true_type) { return guarded([&] { d = r; }); }
    Out copy_assign(V&, const V&, std::false_type) { return Out::ok; }

    static int moved(int v, std::true_type) { return v; }
    static int moved(int, std::false_type) { return kMovedFrom; }
    /// Value left behind in an element that was moved from, for this element type.
    static int after_move(int v)
    {
        // Elem sets kMovedFrom in moves; types without own move (int, bool, CopyOnly) keep the value.
        return moves_mark() ? kMovedFrom : v;
    }
    static bool moves_mark() { return moves_mark_(std::integral_constant<bool, std::is_class<T>::value>{}); }
    static bool moves_mark_(std::true_type)
    {
        ArmFaults off(false);
        T         a = make(1);
        T         b(std::move(a));
        (void) b;
        return val<T>(a) == kMovedFrom;
    }
    static bool moves_mark_(std::false_type) { return false; }

    std::size_t cap_limit(const Model& x) const { return effective(x); }
    bool        over(const Model& x, std::size_t k) const { return k > cap_limit(x); }

    int count_to(int mx) const { return cfg.sizes != nullptr ? cfg.sizes[choose(static_cast<unsigned>(cfg.nsizes))] : range(0, mx); }
    int count() const { return count_to(cfg.nmax); }

    /// One operation on array t. Returns false if the operation is not applicable here (branch ends).
    bool step()
    {
        const int t = cfg.two ? static_cast<int>(choose(2)) : 0;
        const int o = 1 - t;
        V&        c = *s[t];
        const int nops_basic = 12;
        const int nops       = nops_basic + (cfg.alias ? 5 : 0) + (cfg.transfers ? 3 : 0) + (cfg.recreate ? 1 : 0);
        int       op         = static_cast<int>(choose(static_cast<unsigned>(nops)));
        Model     w          = m[t];
        begin_op();
        if (op >= nops_basic)
        {
            op -= nops_basic;
            if (cfg.alias)
            {
                if (op < 5)
                    return step_alias(t, op);
                op -= 5;
            }
            if (cfg.transfers)
            {
                if (op < 3)
                    return step_transfer(t, op);
                op -= 3;
            }
            return step_recreate(t);
        }
        switch (op)
        {
        case 0:
        {
            const int v = range(1, cfg.nvals);
            note("a%d.push_back(%d)", t, v);
            w.v.push_back(n(v));
            const bool tl = over(w, w.v.size());
            settle(t, push_copy(c, v, CopyTag{}), w, tl, Rule::strong);
            break;
        }
        case 1:
        {
            const int v = range(1, cfg.nvals);
            note("a%d.push_back(move(%d))", t, v);
            w.v.push_back(n(v));
            settle(t, push_move(c, v), w, over(w, w.v.size()), Rule::strong);
            break;
        }
        case 2:
        {
            const int v = range(1, cfg.nvals);
            note("a%d.emplace_back(%d)", t, v);
            w.v.push_back(n(v));
            settle(t, emplace1(c, v, BoolTag{}), w, over(w, w.v.size()), Rule::strong);
            break;
        }
        case 3:
            note("a%d.pop_back()", t);
            if (!w.v.empty())
                w.v.pop_back();
            settle(t, guarded([&] { c.pop_back(); }), w, false, Rule::strong);
            break;
        case 4:
        {
            const int k = count();
            note("a%d.resize(%d)", t, k);
            w.v.resize(static_cast<std::size_t>(k), 0);
            settle(t, guarded([&] { c.resize(static_cast<std::size_t>(k)); }), w, over(w, w.v.size()), Rule::grow_value);
            break;
        }
        case 5:
        {
            if (!kCopy)
                return false;
            const int k = count();
            const int v = cfg.nvals;
            note("a%d.resize(%d, %d)", t, k, v);
            w.v.resize(static_cast<std::size_t>(k), n(v));
            settle(t, resize_v(c, static_cast<std::size_t>(k), v, CopyTag{}), w, over(w, w.v.size()), Rule::grow_value);
            break;
        }
        case 6:
        {
            if (!kCopy)
                return false;
            const int k = count();
            const int v = range(1, cfg.nvals);
            note("a%d.assign(%d, %d)", t, k, v);
            w.v.assign(static_cast<std::size_t>(k), n(v));
            settle(t, assign_v(c, static_cast<std::size_t>(k), v, CopyTag{}), w, over(w, w.v.size()), Rule::assign);
            break;
        }
        case 7:
        {
            const int k = count();
            note("a%d.reserve(%d)", t, k);
            const bool tl  = static_cast<std::size_t>(k) > s[t]->capacity() && over(w, static_cast<std::size_t>(k));
            const Out  out = guarded([&] { c.reserve(static_cast<std::size_t>(k)); });
            settle(t, out, w, tl, Rule::strong);
            if (out == Out::ok && !tl && (kExc || !faulted()))
            {
                MC_CHECK(c.capacity() >= static_cast<std::size_t>(k), "capacity %zu after reserve(%d)", c.capacity(), k);
            }
            break;
        }
        case 8:
        {
            note("a%d.shrink_to_fit()", t);
            const Out out = guarded([&] { c.shrink_to_fit(); });
            if (faulted() && out == Out::ok)
            {
                settle(t, out, w, false, Rule::strong);  // a refused shrink is no failure
            }
            else
            {
                settle(t, out, w, false, Rule::strong);
                if (!faulted())
                {
                    const std::size_t need = kBool ? std::min((w.v.size() + 7) / 8 * 8, c.max_size()) : w.v.size();
                    MC_CHECK(c.capacity() == need, "capacity %zu after shrinking to %zu elements", c.capacity(), w.v.size());
                }
            }
            break;
        }
        case 9:
            note("a%d.clear()", t);
            w.v.clear();
            settle(t, guarded([&] { c.clear(); }), w, false, Rule::strong);
            break;
        case 10:
        {
            if (w.v.empty())
                return false;
            const std::size_t i = cfg.sizes != nullptr ? choose(3) * (w.v.size() - 1) / 2 : choose(static_cast<unsigned>(w.v.size()));
            const int         how = range(0, 2);
            const int         v   = cfg.nvals;
            note("a%d[%zu] = %d (form %d)", t, i, v, how);
            w.v[i] = n(v);
            write(c, i, v, how);
            m[t] = w;
            break;
        }
        case 11:
        {
            if (w.v.empty())
                return false;
            const bool fr = choose(2) == 0;
            const int  v  = cfg.nvals;
            note("a%d.%s() = %d", t, fr ? "front" : "back", v);
            if (fr)
            {
                c.front()   = make(v);
                w.v.front() = n(v);
            }
            else
            {
                c.back()   = make(v);
                w.v.back() = n(v);
            }
            m[t] = w;
            break;
        }
        default: harness_error("op");
        }
        (void) o;
        return true;
    }
    void write(V& c, std::size_t i, int v, int how)
    {
        switch (how)
        {
        case 0: c[i] = make(v); break;
        case 1: *(c.begin() + static_cast<std::ptrdiff_t>(i)) = make(v); break;
        default:
#if defined(__cpp_exceptions)
            c.at(i) = make(v);
#else
            c[i] = make(v);
#endif
            break;
        }
    }
    bool step_alias(int t, int op)
    {
        V& c = *s[t];
        if (m[t].v.empty())
            return false;
        if (!kCopy && op != 2)
            return false;
        const std::size_t last = m[t].v.size() - 1;
        const std::size_t i    = last == 0 ? 0 : (choose(2) == 0 ? 0 : last);
        const int         v    = m[t].v[i];
        Model             w    = m[t];
        switch (op)
        {
        case 0:
            note("a%d.push_back(a%d[%zu])", t, t, i);
            w.v.push_back(v);
            settle(t, alias_push(c, i, CopyTag{}), w, over(w, w.v.size()), Rule::strong);
            break;
        case 1:
            note("a%d.emplace_back(a%d[%zu])", t, t, i);
            w.v.push_back(v);
            settle(t, alias_emplace(c, i, CopyTag{}), w, over(w, w.v.size()), Rule::strong);
            break;
        case 2:
            note("a%d.push_back(move(a%d[%zu]))", t, t, i);
            w.v[i] = after_move(v);
            w.v.push_back(v);
            settle(t, alias_push_move(c, i, BoolTag{}), w, over(w, w.v.size()), Rule::strong);
            break;
        case 3:
        {
            const int k = count();
            note("a%d.resize(%d, a%d[%zu])", t, k, t, i);
            w.v.resize(static_cast<std::size_t>(k), v);
            settle(t, alias_resize(c, static_cast<std::size_t>(k), i, CopyTag{}), w, over(w, w.v.size()), Rule::grow_value);
            break;
        }
        default:
        {
            const int k = count();
            note("a%d.assign(%d, a%d[%zu])", t, k, t, i);
            w.v.assign(static_cast<std::size_t>(k), v);
            settle(t, alias_assign(c, static_cast<std::size_t>(k), i, CopyTag{}), w, over(w, w.v.size()), Rule::assign);
            break;
        }
        }
        return true;
    }
    bool step_transfer(int t, int op)
    {
        const int o = 1 - t;
        V&        c = *s[t];
        V&        r = *s[o];
        Model     w = m[t];
        switch (op)
        {
        case 0:
        {
            if (!kCopy)
                return false;
            note("a%d = a%d", t, o);
            w.v     = m[o].v;
            w.limit = m[o].limit;
            if (AT::propagate_on_container_copy_assignment::value)
                w.alloc = m[o].alloc;
            settle(t, copy_assign(c, r, CopyTag{}), w, false, Rule::copy);
            break;
        }
        case 1:
        {
            if (!kCopy)
                return false;
            note("a%d = a%d (self)", t, t);
            V& self = c;
            settle(t, copy_assign(c, self, CopyTag{}), w, false, Rule::strong);
            break;
        }
        default:
        {
            note("a%d = move(a%d)", t, o);
            w.v     = m[o].v;
            w.limit = m[o].limit;
            if (AT::propagate_on_container_move_assignment::value)
                w.alloc = m[o].alloc;
            const std::vector<int> empty;
            settle(t, guarded([&] { c = std::move(r); }), w, false, Rule::move, &empty);
            break;
        }
        }
        return true;
    }

    // ---- construction
    std::size_t pick_limit()
    {
        return cfg.limits ? static_cast<std::size_t>(count_to(cfg.limit_max)) : nolimit();
    }
    std::size_t limit_or_bits(std::size_t l) const { return l; }

    template <typename F>
    Out build(int t, F&& f)
    {
        s[t].kill();
        const Out out = guarded([&] { f(); });
        if (out != Out::ok)
        {
            MC_CHECK(!s[t].alive, "internal");
        }
        return out;
    }
    void rebuild_empty(int t, std::size_t limit, int alloc)
    {
        ArmFaults off(false);
        s[t].make(limit, mk(alloc));
        m[t].v.clear();
        m[t].limit = limit;
        m[t].alloc = alloc;
    }
    Out ctor_list(int t, int k, int v, std::size_t limit, bool lim, int id, std::true_type)
    {
        const T a = make(v), b = make(v + 1), d = make(v);
        return build(t, [&] {
            if (lim)
            {
                if (k == 0)
                    s[t].make(std::initializer_list<T>{}, limit, mk(id));
                else if (k == 1)
                    s[t].make(std::initializer_list<T>{a}, limit, mk(id));
                else if (k == 2)
                    s[t].make(std::initializer_list<T>{a, b}, limit, mk(id));
                else
                    s[t].make(std::initializer_list<T>{a, b, d}, limit, mk(id));
            }
            else
            {
                if (k == 0)
                    s[t].make(std::initializer_list<T>{}, mk(id));
                else if (k == 1)
                    s[t].make(std::initializer_list<T>{a}, mk(id));
                else if (k == 2)
                    s[t].make(std::initializer_list<T>{a, b}, mk(id));
                else
                    s[t].make(std::initializer_list<T>{a, b, d}, mk(id));
            }
        });
    }
    Out ctor_list(int, int, int, std::size_t, bool, int, std::false_type) { return Out::ok; }
    Out ctor_range(int t, const std::vector<int>& vals, std::size_t limit, bool lim, int id, std::true_type)
    {
        // elements outside the arrays, from a plain array
        using S = typename std::conditional<kBool, char, T>::type;
        constexpr std::size_t most = 1100;
        MC_CHECK(vals.size() <= most, "internal");
        alignas(S) static unsigned char raw[most * sizeof(S)];
        S* const    f = reinterpret_cast<S*>(raw);
        std::size_t k = 0;
        for (int v : vals)
            ::new (static_cast<void*>(f + k++)) S(static_cast<char>(v));
        const S* const l = f + k;
        const Out out = ctor_range_(t, static_cast<const S*>(f), l, limit, lim, id);
        while (k > 0)
            f[--k].~S();
        return out;
    }
    template <typename S>
    Out ctor_range_(int t, const S* f, const S* l, std::size_t limit, bool lim, int id)
    {
        return build(t, [&] {
            if (lim)
                s[t].make(f, l, limit, mk(id));
            else
                s[t].make(f, l, mk(id));
        });
    }
    Out ctor_range(int, const std::vector<int>&, std::size_t, bool, int, std::false_type) { return Out::ok; }
    Out ctor_copy(int t, const V& r, std::true_type)
    {
        return build(t, [&] { s[t].make(r); });
    }
    Out ctor_copy(int, const V&, std::false_type) { return Out::ok; }
    Out ctor_copy_alloc(int t, const V& r, int id, std::true_type)
    {
        return build(t, [&] { s[t].make(r, mk(id)); });
    }
    Out ctor_copy_alloc(int, const V&, int, std::false_type) { return Out::ok; }

    /// Result of a constructor; a failed one leaves nothing, and is replaced by an empty array to go on.
    void settle_ctor(int t, Out out, const Model& want, bool too_long, Rule rule, const std::vector<int>* src_after = nullptr)
    {
        const int o = 1 - t;
        if (!faulted())
        {
            if (kExc)
            {
                const Out expect = too_long ? Out::length : Out::ok;
                MC_CHECK(out == expect, "constructor ended with %s, expected %s", name(out), name(expect));
            }
            else if (too_long)
            {
                const std::vector<int> got = contents(*s[t]);
                MC_CHECK(is_prefix(got, want.v), "over-long construction gave %s", show(got).c_str());
                m[t]   = want;
                m[t].v = got;
                return;
            }
        }
        if (out == Out::ok)
        {
            if (kExc || !faulted())
            {
                m[t] = want;
                if (src_after != nullptr)
                    m[o].v = *src_after;
                return;
            }
            // Without exceptions a construction that ran out of memory gives a prefix.
            const std::vector<int> got = contents(*s[t]);
            const std::vector<int> src = contents(*s[o]);
            MC_CHECK(is_prefix(got, want.v), "construction without memory gave %s", show(got).c_str());
            if (src_after != nullptr && got == want.v && src == *src_after)
                m[o].v = src;
            else
                MC_CHECK(src == old_[o].v, "construction without memory changed the source: %s", show(src).c_str());
            m[t]   = want;
            m[t].v = got;
            return;
        }
        MC_CHECK(out != Out::other, "constructor ended with an unexpected exception");
        if (rule == Rule::move)
        {
            const std::vector<int> src = contents(*s[o]);
            MC_CHECK(subset(src, old_[o].v, old_[o].v, old_[o].v), "after a failed move the source holds foreign values");
            m[o].v = src;
        }
        if (kTracked)
        {
            const std::size_t live = live_objects(ElemOps<T>::tracked_type);
            MC_CHECK(live == m[o].v.size(), "a failed constructor left %zu elements behind", live - m[o].v.size());
        }
        MC_CHECK(live_blocks() <= (s[o]->capacity() > 0 ? 1U : 0U), "a failed constructor left a block behind");
        rebuild_empty(t, want.limit, want.alloc);
    }
    bool step_recreate(int t)
    {
        const int o  = 1 - t;
        const int op = static_cast<int>(choose(8));
        Model     w;
        w.limit = nolimit();
        w.alloc = 0;
        V& r    = *s[o];
        auto id_of = [&] { return static_cast<int>(choose(static_cast<unsigned>(cfg.allocs))); };
        switch (op)
        {
        case 0:  // empty, with a limit
        {
            w.limit = pick_limit();
            w.alloc = id_of();
            note("a%d := empty(limit %zu, alloc %d)", t, w.limit, w.alloc);
            settle_ctor(t, build(t, [&] { s[t].make(w.limit, mk(w.alloc)); }), w, false, Rule::strong);
            break;
        }
        case 1:
        {
            w.alloc = id_of();
            note("a%d := empty(alloc %d)", t, w.alloc);
            settle_ctor(t, build(t, [&] { s[t].make(mk(w.alloc)); }), w, false, Rule::strong);
            break;
        }
        case 2:
        case 3:
        {
            if (!kCopy)
                return false;
            const bool lim = (op == 2);
            w.limit        = lim ? pick_limit() : nolimit();
            w.alloc        = id_of();
            const int k    = range(0, 3);
            const int v    = 1;
            for (int i = 0; i < k; i++)
                w.v.push_back(n(i == 1 ? v + 1 : v));
            note("a%d := {%d items}%s", t, k, lim ? " with limit" : "");
            settle_ctor(t, ctor_list(t, k, v, w.limit, lim, w.alloc, CopyTag{}), w, over(w, w.v.size()), Rule::strong);
            break;
        }
        case 4:
        {
            if (!kCopy)
                return false;
            const bool lim = choose(2) == 0;
            w.limit        = lim ? pick_limit() : nolimit();
            w.alloc        = id_of();
            const int k    = count();
            for (int i = 0; i < k; i++)
                w.v.push_back(n(i % cfg.nvals + 1));
            note("a%d := range of %d%s", t, k, lim ? " with limit" : "");
            settle_ctor(t, ctor_range(t, w.v, w.limit, lim, w.alloc, CopyTag{}), w, over(w, w.v.size()), Rule::strong);
            break;
        }
        case 5:
        {
            if (!kCopy)
                return false;
            const bool ext = choose(2) == 0;
            w              = m[o];
            if (ext)
            {
                w.alloc = id_of();
                note("a%d := copy of a%d with allocator %d", t, o, w.alloc);
                settle_ctor(t, ctor_copy_alloc(t, r, w.alloc, CopyTag{}), w, over(w, w.v.size()), Rule::copy);
            }
            else
            {
                w.alloc = AT::select_on_container_copy_construction(mk(m[o].alloc)).id;
                note("a%d := copy of a%d", t, o);
                settle_ctor(t, ctor_copy(t, r, CopyTag{}), w, over(w, w.v.size()), Rule::copy);
            }
            break;
        }
        case 6:
        {
            w = m[o];
            note("a%d := moved a%d", t, o);
            const std::vector<int> empty;
            settle_ctor(t, build(t, [&] { s[t].make(std::move(r)); }), w, false, Rule::move, &empty);
            break;
        }
        default:
        {
            w       = m[o];
            w.alloc = id_of();
            note("a%d := moved a%d with allocator %d", t, o, w.alloc);
            const std::vector<int> empty;
            settle_ctor(t, build(t, [&] { s[t].make(std::move(r), mk(w.alloc)); }), w, false, Rule::move, &empty);
            break;
        }
        }
        return true;
    }

    // ---- initial states: every combination of size and spare capacity
    void fill(int t, int size, int spare)
    {
        for (int i = 0; i < size; i++)
        {
            T x = make(i % cfg.nvals + 1);
            s[t]->push_back(std::move(x));
            m[t].v.push_back(n(i % cfg.nvals + 1));
        }
        if (spare == 0)
            s[t]->shrink_to_fit();
        else if (spare == 2 && size + 3 <= static_cast<int>(std::min<std::size_t>(s[t]->max_size(), 1000)))
            s[t]->reserve(static_cast<std::size_t>(size + 3));
    }
    void init()
    {
        for (int t = 0; t < 2; t++)
        {
            const std::size_t lim = pick_limit();
            const int         id  = cfg.allocs > 1 && t == 1 ? static_cast<int>(choose(2)) : 0;
            rebuild_empty(t, lim, id);
            const std::size_t room = std::min<std::size_t>(effective(m[t]), 1100);
            int               mx   = t == 0 ? cfg.init_max : cfg.init_b;
            if (static_cast<std::size_t>(mx) > room)
                mx = static_cast<int>(room);
            const int k     = mx == 0 ? 0 : std::min(count_to(mx), mx);
            const int spare = k == 0 ? (mx > 0 ? static_cast<int>(choose(2)) * 2 : 0) : static_cast<int>(choose(t == 0 ? 3 : 2));
            note("a%d: %d elements, spare capacity mode %d, limit %zu, allocator %d", t, k, spare, lim, id);
            fill(t, k, spare);
        }
    }
    void run()
    {
        init();
        for (int d = 0; d <= ex().depth; d++)
        {
            const Key k = key();
            if (unseen(k))
                check_all();
            if (!boundary(k, ex().depth - d) || d == ex().depth)
                return;
            if (!step())
                return;
            transition();
            check_lifetimes();
        }
    }
};

template <typename T, typename A>
inline void run_world(const Cfg& cfg)
{
    World<T, A> w;
    w.cfg = cfg;
    w.run();
}
}  // namespace vla
#endif
