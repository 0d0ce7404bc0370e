// Monitors: memory blocks by origin, live objects by address, and canonical hashing of raw memory.
#ifndef TRACK_HPP
#define TRACK_HPP

#include "mc.hpp"

#include <algorithm>
#include <new>
#include <type_traits>
#include <utility>

#if defined(__SANITIZE_ADDRESS__)
#    define MC_ASAN 1
#elif defined(__has_feature)
#    if __has_feature(address_sanitizer)
#        define MC_ASAN 1
#    endif
#endif
#ifdef MC_ASAN
#    include <sanitizer/asan_interface.h>
#    define MC_POISON(p, n) __asan_poison_memory_region(p, n)
#    define MC_UNPOISON(p, n) __asan_unpoison_memory_region(p, n)
#else
#    define MC_POISON(p, n) ((void) 0)
#    define MC_UNPOISON(p, n) ((void) 0)
#endif

namespace mc
{
/// Thrown by instrumented operations.
struct Injected
{
    int id;
};

// ---------------------------------------------------------------------------------------- blocks
struct Block
{
    char*       base;  // what malloc returned
    char*       p;     // what the user sees
    std::size_t size;
    std::size_t align;
    int         res;
    int         canon;
    std::size_t total;  // bytes from base
};
struct Object
{
    const void* p;
    std::size_t size;
    int         type;
};
struct Root
{
    const char* p;
    std::size_t size;
};
struct Track
{
    std::vector<Block>  live;
    std::vector<Block>  dead;  // of this execution, for recognising dangling pointers
    std::vector<Object> objects;
    std::vector<Root>   roots;
    std::uint64_t       allocs = 0, frees = 0;
    std::uint64_t       ctors = 0, dtors = 0;
    int                 equal_class[16];  // resource id -> equality class
    bool                fixed_phase = false;  // give every block the same address modulo 256 (per alignment)
};
inline Track& tr()
{
    static Track t;
    return t;
}

inline std::size_t live_blocks(int res = -1)
{
    if (res < 0)
        return tr().live.size();
    std::size_t n = 0;
    for (auto& b : tr().live)
        n += (b.res == res) ? 1U : 0U;
    return n;
}

/// Returns null if the injected fault says so.  The address is a multiple of align but not of 2*align.
inline void* block_alloc(int res, std::size_t size, std::size_t align, bool may_fail = true)
{
    MC_CHECK(align != 0 && (align & (align - 1)) == 0, "allocation requested with alignment %zu", align);
    MC_CHECK(size < (1UL << 30), "absurd allocation of %zu bytes requested", size);
    if (may_fail && fault("allocation"))
    {
        return nullptr;
    }
    Track&            t     = tr();
    const bool        phase = t.fixed_phase && align < 256;
    const std::size_t slack = phase ? 512 : 3 * align;
    char*             base  = static_cast<char*>(std::malloc(slack + size + (size == 0 ? 1 : 0)));
    if (base == nullptr)
        harness_error("out of memory");
    std::uintptr_t u = reinterpret_cast<std::uintptr_t>(base);
    u                = phase ? (u + 255) / 256 * 256 : (u + align - 1) / align * align;
    if (u % (2 * align) == 0)
        u += align;
    char* p = reinterpret_cast<char*>(u);
    // shift so that the end of the user block is close to the end of the malloc block is impossible with
    // exact alignment; poison both gaps instead.
    std::memset(base, 0xA5, slack + size);
    MC_POISON(base, static_cast<std::size_t>(p - base));
    MC_POISON(p + size, static_cast<std::size_t>(base + slack + size - (p + size)));
    t.live.push_back(Block{base, p, size, align, res, -1, slack + size});
    t.allocs++;
    return p;
}
inline Block* find_block(const void* p)
{
    for (auto& b : tr().live)
        if (b.p == p)
            return &b;
    return nullptr;
}
inline const Block* containing_block(const void* q)
{
    const char* c = static_cast<const char*>(q);
    for (auto& b : tr().live)
        if (c >= b.p && c <= b.p + b.size)
            return &b;
    return nullptr;
}
inline bool res_equal(int a, int b) { return a == b || tr().equal_class[a & 15] == tr().equal_class[b & 15]; }

inline void block_free(int res, void* p, std::size_t size, std::size_t align)
{
    Track& t = tr();
    Block* b = find_block(p);
    if (b == nullptr)
    {
        for (auto& d : t.dead)
            if (d.p == p)
                fail("block released twice (resource %d, %zu bytes)", res, size);
        fail("released a block that was never handed out (resource %d, %zu bytes)", res, size);
    }
    MC_CHECK(res_equal(b->res, res), "block of resource %d released to resource %d", b->res, res);
    MC_CHECK(b->size == size, "block of %zu bytes released as %zu bytes", b->size, size);
    MC_CHECK(b->align == align, "block with alignment %zu released with alignment %zu", b->align, align);
    for (auto& o : t.objects)
    {
        const char* c = static_cast<const char*>(o.p);
        MC_CHECK(!(c >= b->p && c < b->p + b->size), "block released while an element in it is alive");
    }
    MC_UNPOISON(b->base, b->total);
    t.frees++;
    Block copy = *b;
    *b         = t.live.back();
    t.live.pop_back();
    t.dead.push_back(copy);
    std::free(copy.base);
}

// ---------------------------------------------------------------------------------------- objects
inline int obj_index(const void* p, int type)
{
    auto& v = tr().objects;
    for (std::size_t i = 0; i < v.size(); i++)
        if (v[i].p == p && v[i].type == type)
            return static_cast<int>(i);
    return -1;
}
inline void obj_ctor(const void* p, std::size_t size, int type)
{
    const char* a = static_cast<const char*>(p);
    for (auto& o : tr().objects)
    {
        const char* b = static_cast<const char*>(o.p);
        MC_CHECK(a + size <= b || b + o.size <= a, "object constructed on top of a live object (type %d over %d)", type, o.type);
    }
    tr().ctors++;
    tr().objects.push_back(Object{p, size, type});
}
inline void obj_dtor(const void* p, int type)
{
    const int i = obj_index(p, type);
    MC_CHECK(i >= 0, "destructor runs on something that is not a live object (type %d)", type);
    auto& v = tr().objects;
    v[static_cast<std::size_t>(i)] = v.back();
    v.pop_back();
    tr().dtors++;
}
inline void obj_use(const void* p, int type, const char* how)
{
    MC_CHECK(obj_index(p, type) >= 0, "%s something that is not a live object (type %d)", how, type);
}
inline std::size_t live_objects(int type = -1)
{
    if (type < 0)
        return tr().objects.size();
    std::size_t n = 0;
    for (auto& o : tr().objects)
        n += (o.type == type) ? 1U : 0U;
    return n;
}

// ---------------------------------------------------------------------------------------- hashing
/// Registers an implementation object whose raw bytes belong to the state.
struct RootGuard
{
    RootGuard(const void* p, std::size_t n) { tr().roots.push_back(Root{static_cast<const char*>(p), n}); }
    ~RootGuard() { tr().roots.pop_back(); }
};

__attribute__((no_sanitize("address"))) inline std::uint64_t load_word(const char* p)
{
    std::uint64_t                     v;
    const volatile std::uint64_t* const q = reinterpret_cast<const volatile std::uint64_t*>(p);
    v                                     = *q;
    return v;
}
class StateHash
{
public:
    Hasher h;

    /// Adds all registered roots and every block reachable from them (then the remaining blocks).
    Key finish()
    {
        Track& t = tr();
        for (auto& b : t.live)
            b.canon = -1;
        for (auto& r : t.roots)
            region(r.p, r.size);
        drain();
        // unreachable blocks (handles known to the model only): hash in allocation order
        for (std::size_t i = 0; i < t.live.size(); i++)
            if (t.live[i].canon < 0)
            {
                t.live[i].canon = next_++;
                queue_.push_back(t.live[i].p);
                drain();
            }
        h.u64(static_cast<std::uint64_t>(next_));
        h.u64(t.objects.size());
        return h.key();
    }
    void region(const char* p, std::size_t n)
    {
        h.u64(n);
        std::size_t i = 0;
        if ((reinterpret_cast<std::uintptr_t>(p) & 7U) == 0)
        {
            for (; i + 8 <= n; i += 8)
                word(load_word(p + i));
        }
        for (; i < n; i++)
            h.u64(static_cast<unsigned char>(p[i]));
    }

private:
    void word(std::uint64_t w)
    {
        Track&      t = tr();
        if (w < 0x10000)
        {
            h.u64(w);
            return;
        }
        const char* c = reinterpret_cast<const char*>(w);
        for (auto& b : t.live)
        {
            if (c >= b.p && c <= b.p + b.size)
            {
                if (b.canon < 0)
                {
                    b.canon = next_++;
                    queue_.push_back(b.p);
                }
                h.u64(0xB10C000000000000ULL + (static_cast<std::uint64_t>(b.canon) << 32));
                h.u64(static_cast<std::uint64_t>(c - b.p));
                return;
            }
        }
        for (std::size_t i = 0; i < t.roots.size(); i++)
        {
            if (c >= t.roots[i].p && c <= t.roots[i].p + t.roots[i].size)
            {
                h.u64(0x5E1F000000000000ULL + (static_cast<std::uint64_t>(i) << 32));
                h.u64(static_cast<std::uint64_t>(c - t.roots[i].p));
                return;
            }
        }
        for (auto& b : t.dead)
        {
            if (c >= b.p && c <= b.p + b.size)
            {
                h.u64(0xDEAD000000000000ULL);
                return;
            }
        }
        h.u64(w);
    }
    void drain()
    {
        while (!queue_.empty())
        {
            const char* p = queue_.back();
            queue_.pop_back();
            const Block* b = find_block(p);
            h.u64(b->size);
            h.u64(b->align);
            h.u64(static_cast<std::uint64_t>(b->res));
            region(b->p, b->size);
        }
    }
    int                      next_ = 0;
    std::vector<const char*> queue_;
};

// ---------------------------------------------------------------------------------------- per execution
inline void track_begin()
{
    Track& t = tr();
    t.live.clear();
    t.dead.clear();
    t.objects.clear();
    t.roots.clear();
    t.allocs = t.frees = t.ctors = t.dtors = 0;
    for (int i = 0; i < 16; i++)
        t.equal_class[i] = i;
}
inline void track_end()
{
    Track& t = tr();
    MC_CHECK(t.objects.empty(), "%zu object(s) never destroyed", t.objects.size());
    MC_CHECK(t.live.empty(), "%zu block(s) never released", t.live.size());
}
struct TrackInit
{
    TrackInit()
    {
        begin_hook() = &track_begin;
        end_hook()   = &track_end;
    }
};
static TrackInit track_init_instance;

// ---------------------------------------------------------------------------------------- element types
enum Prop : unsigned
{
    kCopy       = 1,    // copyable
    kThrowCopy  = 2,    // copy operations may fail
    kThrowMove  = 4,    // move operations may fail (and are not noexcept)
    kSelf       = 8,    // holds a pointer to itself
    kAlign      = 16,   // over-aligned
    kThrowDef   = 32,   // default / value construction may fail
    kBig        = 64,   // 48 bytes
    kNoMoveDecl = 128,  // copy only, no move operations declared
    kThrowAsgn  = 256,  // assignments (copy) may fail
};
#if defined(__cpp_exceptions)
#    define MC_MAYBE_THROW(flag, what)       \
        do                                   \
        {                                    \
            if ((flag) && ::mc::fault(what)) \
                throw ::mc::Injected{1};     \
        } while (false)
#else
#    define MC_MAYBE_THROW(flag, what) ((void) (flag))
#endif

constexpr int kMovedFrom = -77;

/// An element that knows whether it is alive. P: property bits, Tag: distinguishes types.
template <unsigned P, int Tag = 0>
struct alignas((P & kAlign) ? 64 : alignof(void*)) Elem
{
    static constexpr int type = static_cast<int>(P) * 16 + Tag;

    const Elem* self;
    int         v;
    int         pad[(P & kBig) ? 9 : 1];

    Elem() noexcept(!(P & kThrowDef)) : self(nullptr), v(0)
    {
        MC_MAYBE_THROW((P & kThrowDef) != 0, "default construction");
        init();
    }
    Elem(int x) noexcept(!(P & kThrowDef)) : self(nullptr), v(x)
    {
        MC_MAYBE_THROW((P & kThrowDef) != 0, "value construction");
        init();
    }
    Elem(int x, int y) noexcept(!(P & kThrowDef)) : self(nullptr), v(x + y)
    {
        MC_MAYBE_THROW((P & kThrowDef) != 0, "value construction");
        init();
    }
    Elem(const Elem& o) noexcept(!(P & kThrowCopy)) : self(nullptr), v(o.get())
    {
        MC_MAYBE_THROW((P & kThrowCopy) != 0, "copy construction");
        init();
    }
    Elem(Elem&& o) noexcept(!(P & kThrowMove)) : self(nullptr), v(o.get())
    {
        MC_MAYBE_THROW((P & kThrowMove) != 0, "move construction");
        init();
        o.v = kMovedFrom;
    }
    Elem& operator=(const Elem& o) noexcept(!(P & (kThrowCopy | kThrowAsgn)))
    {
        obj_use(this, type, "assignment to");
        const int x = o.get();
        MC_MAYBE_THROW((P & (kThrowCopy | kThrowAsgn)) != 0, "copy assignment");
        v = x;
        return *this;
    }
    Elem& operator=(Elem&& o) noexcept(!(P & kThrowMove))
    {
        obj_use(this, type, "assignment to");
        const int x = o.get();
        MC_MAYBE_THROW((P & kThrowMove) != 0, "move assignment");
        if (this != &o)
        {
            v   = x;
            o.v = kMovedFrom;
        }
        return *this;
    }
    ~Elem()
    {
        obj_dtor(this, type);
        if (P & kSelf)
            MC_CHECK(self == this, "a self-referential object was relocated without its constructor");
        v    = -999;
        self = nullptr;
    }
    int get() const
    {
        obj_use(this, type, "read of");
        if (P & kSelf)
            MC_CHECK(self == this, "a self-referential object was relocated without its constructor");
        return v;
    }
    bool operator==(const Elem& o) const { return get() == o.get(); }
    bool operator!=(const Elem& o) const { return get() != o.get(); }
    bool operator<(const Elem& o) const { return get() < o.get(); }

private:
    void init()
    {
        MC_CHECK(reinterpret_cast<std::uintptr_t>(this) % alignof(Elem) == 0, "object constructed at a misaligned address");
        obj_ctor(this, sizeof(Elem), type);
        if (P & kSelf)
            self = this;
        for (int& x : pad)
            x = 7;
    }
};
/// An element that needs no destruction, but does not allow to be copied as bytes.
template <unsigned P, int Tag = 0>
struct Bare
{
    static constexpr int type = -1;

    const Bare* self;
    int         v;
    int         pad = 7;

    Bare() noexcept(!(P & kThrowDef)) : self(nullptr), v(0) { made((P & kThrowDef) != 0, "default construction"); }
    Bare(int x) noexcept(!(P & kThrowDef)) : self(nullptr), v(x) { made((P & kThrowDef) != 0, "value construction"); }
    Bare(int x, int y) noexcept(!(P & kThrowDef)) : self(nullptr), v(x + y) { made((P & kThrowDef) != 0, "value construction"); }
    Bare(const Bare& o) noexcept(!(P & kThrowCopy)) : self(nullptr), v(o.get()) { made((P & kThrowCopy) != 0, "copy construction"); }
    Bare(Bare&& o) noexcept(!(P & kThrowMove)) : self(nullptr), v(o.get())
    {
        made((P & kThrowMove) != 0, "move construction");
        o.v = kMovedFrom;
    }
    Bare& operator=(const Bare& o) noexcept(!(P & (kThrowCopy | kThrowAsgn)))
    {
        (void) get();
        const int x = o.get();
        MC_MAYBE_THROW((P & (kThrowCopy | kThrowAsgn)) != 0, "copy assignment");
        v = x;
        return *this;
    }
    Bare& operator=(Bare&& o) noexcept(!(P & kThrowMove))
    {
        (void) get();
        const int x = o.get();
        MC_MAYBE_THROW((P & kThrowMove) != 0, "move assignment");
        if (this != &o)
        {
            v   = x;
            o.v = kMovedFrom;
        }
        return *this;
    }
    int get() const
    {
        MC_CHECK(self == this && pad == 7, "read of something that is not an object");
        return v;
    }
    bool operator==(const Bare& o) const { return get() == o.get(); }
    bool operator!=(const Bare& o) const { return get() != o.get(); }
    bool operator<(const Bare& o) const { return get() < o.get(); }

private:
    void made(bool may_fail, const char* what)
    {
        MC_MAYBE_THROW(may_fail, what);
        (void) may_fail;
        (void) what;
        self = this;
    }
};
/// Copyable-only and move-only variations are made by wrapping, so that traits see the right thing.
template <unsigned P, int Tag = 0>
struct MoveOnly : Elem<P, Tag>
{
    using Elem<P, Tag>::Elem;
    MoveOnly()                           = default;
    MoveOnly(const MoveOnly&)            = delete;
    MoveOnly& operator=(const MoveOnly&) = delete;
    MoveOnly(MoveOnly&&)                 = default;
    MoveOnly& operator=(MoveOnly&&)      = default;
};
template <unsigned P, int Tag = 0>
struct CopyOnly : Elem<P, Tag>  // moves are copies
{
    using Elem<P, Tag>::Elem;
    CopyOnly()                                                                  = default;
    CopyOnly(const CopyOnly& o) noexcept(!(P & kThrowCopy)) : Elem<P, Tag>(static_cast<const Elem<P, Tag>&>(o)) {}
    CopyOnly& operator=(const CopyOnly& o) noexcept(!(P & kThrowCopy))
    {
        Elem<P, Tag>::operator=(static_cast<const Elem<P, Tag>&>(o));
        return *this;
    }
    ~CopyOnly() = default;
};

template <typename T>
struct Val  // uniform access to the integer inside
{
    static int get(const T& t) { return t.get(); }
};
template <>
struct Val<int>
{
    static int get(const int& t) { return t; }
};
template <>
struct Val<unsigned char>
{
    static int get(const unsigned char& t) { return t; }
};
template <typename T>
inline int val(const T& t)
{
    return Val<T>::get(t);
}

/// Zeroed, address-stable storage for an implementation object that takes part in the state hash.
template <typename T>
struct Slot
{
    alignas(T) alignas(16) unsigned char raw[sizeof(T)];
    bool      alive = false;
    RootGuard guard;
    Slot() : guard(raw, sizeof raw) { std::memset(raw, 0, sizeof raw); }
    Slot(const Slot&) = delete;
    ~Slot() { kill(); }
    template <typename... A>
    T& make(A&&... a)
    {
        kill();
        std::memset(raw, 0, sizeof raw);
        ::new (static_cast<void*>(raw)) T(std::forward<A>(a)...);
        alive = true;
        return **this;
    }
    void kill()
    {
        if (alive)
        {
            alive = false;
            (**this).~T();
            std::memset(raw, 0, sizeof raw);
        }
    }
    T& operator*() { return *reinterpret_cast<T*>(raw); }
    T* operator->() { return reinterpret_cast<T*>(raw); }
};
}  // namespace mc
#endif
