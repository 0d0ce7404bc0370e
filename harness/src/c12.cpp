// C12: smart pointers made by the factories release what they own exactly once.
#define MC_MAIN
#include "fwd.hpp"
#include "../resource.hpp"

#include <cetl/pmr/interface_ptr.hpp>
#include <cetl/pmr/memory.hpp>

#include <memory>

using namespace mc;
namespace
{
/// A stateful allocator of the polymorphic kind that may be assigned.
template <typename T>
struct Alloc
{
    using value_type = T;
    int id;
    explicit Alloc(int i) noexcept : id(i) {}
    template <typename U>
    Alloc(const Alloc<U>& o) noexcept : id(o.id)
    {
    }
    template <typename U>
    struct rebind
    {
        using other = Alloc<U>;
    };
    T* allocate(std::size_t n)
    {
        void* const p = block_alloc(id, n * sizeof(T), alignof(T));
#if defined(__cpp_exceptions)
        if (p == nullptr)
            throw std::bad_alloc();
#endif
        return static_cast<T*>(p);
    }
    void deallocate(T* p, std::size_t n)
    {
        if (p != nullptr)
            block_free(id, p, n * sizeof(T), alignof(T));
    }
    template <typename... A>
    void construct(T* p, A&&... a)
    {
        ::new (static_cast<void*>(p)) T(std::forward<A>(a)...);
    }
    friend bool operator==(const Alloc& a, const Alloc& b) { return a.id == b.id; }
    friend bool operator!=(const Alloc& a, const Alloc& b) { return a.id != b.id; }
};
template <typename T>
struct PmrSource
{
    using type = cetl::pmr::polymorphic_allocator<T>;
    static type make(int r) { return type(&res(r)); }
};
template <typename T>
struct OwnSource
{
    using type = Alloc<T>;
    static type make(int r) { return type(r); }
};

struct Model
{
    bool live = false;
    int  v    = 0;
    int  res  = 0;
    int  kind = 0;
};
constexpr unsigned kE = kCopy | kSelf | kThrowDef;

/// What was asked for an object must be what the block is like.
template <typename T>
void check_block(const T* p, int r)
{
    const Block* b = find_block(p);
    MC_CHECK(b != nullptr, "the object is not at the start of a block");
    MC_CHECK(b->res == r, "the object lives in resource %d, expected %d", b->res, r);
    MC_CHECK(b->size >= sizeof(T) && b->align % alignof(T) == 0, "the block does not suit the object");
}

/// Operations common to all kinds of owning pointers. W supplies make(), value(), Ptr.
template <typename W>
struct Owner
{
    using Ptr = typename W::Ptr;
    Slot<Ptr> s[2];
    Model     m[2];
    W         w;

    Owner()
    {
        for (int i = 0; i < 2; i++)
            w.make_null(s[i], i);
    }
    Key key()
    {
        StateHash h;
        for (auto& x : m)
            h.h.u64(static_cast<std::uint64_t>((x.live ? 1000 : 0) + x.v * 100 + x.res * 10 + x.kind));
        h.h.u64(static_cast<std::uint64_t>(ex().faults_left));
        return h.finish();
    }
    void check_all()
    {
        for (int i = 0; i < 2; i++)
        {
            MC_CHECK(static_cast<bool>(*s[i]) == m[i].live, "pointer %c is %s", 'a' + i, *s[i] ? "set" : "null");
            if (m[i].live)
            {
                w.check(s[i]->get(), m[i]);
                MC_CHECK(w.value(s[i]->get()) == m[i].v, "the object behind %c is %d, expected %d", 'a' + i, w.value(s[i]->get()), m[i].v);
            }
        }
    }
    void check_lifetimes()
    {
        const std::size_t n = (m[0].live ? 1U : 0U) + (m[1].live ? 1U : 0U);
        MC_CHECK(live_blocks() == n, "%zu blocks held by %zu objects", live_blocks(), n);
        MC_CHECK(live_objects() == n, "%zu objects alive, %zu owned", live_objects(), n);
        for (int r = 0; r < 3; r++)
        {
            std::size_t want = 0;
            for (auto& x : m)
                want += (x.live && x.res == r) ? 1U : 0U;
            MC_CHECK(live_blocks(r) == want, "resource %d holds %zu blocks, expected %zu", r, live_blocks(r), want);
        }
    }
    bool step()
    {
        const int t = static_cast<int>(choose(2)), o = 1 - t;
        switch (choose(8))
        {
        case 0:
        {
            const int kind = static_cast<int>(choose(static_cast<unsigned>(W::kinds)));
            const int args = static_cast<int>(choose(3));
            const int r    = static_cast<int>(choose(2));
            const bool assign = W::assignable && choose(2) == 1;
            note("%s%c from make_unique(kind %d, %d arguments, resource %d)", assign ? "" : "new ", 'a' + t, kind, args, r);
            const int used = ex().faults_used;
            if (!assign)
            {
                s[t].kill();
                m[t] = Model{};
            }
            const Out out = guarded([&] { w.make(s[t], kind, args, r, assign); });
            const bool faulted = ex().faults_used > used;
            if (out == Out::ok)
            {
                if (faulted)
                {
#if defined(__cpp_exceptions)
                    fail("a failed construction goes unnoticed");
#endif
                    MC_CHECK(!*s[t], "memory ran out but the pointer is not null");
                    m[t] = Model{};
                    return true;
                }
                m[t].live = true;
                m[t].v    = args;
                m[t].res  = r;
                m[t].kind = kind;
                return true;
            }
            MC_CHECK(faulted, "make_unique fails with %s without a reason", name(out));
            MC_CHECK(out == Out::alloc || out == Out::injected, "make_unique fails with %s", name(out));
            if (!assign)
            {
                ArmFaults off(false);
                w.make_null(s[t], t);
            }
            return true;
        }
        case 1:
            note("%c.reset()", 'a' + t);
            s[t]->reset();
            m[t] = Model{};
            return true;
        case 2:
            if (!W::assignable)
                return false;
            note("%c = move(%c)", 'a' + t, 'a' + o);
            w.assign(*s[t], *s[o]);
            m[t] = m[o];
            m[o] = Model{};
            MC_CHECK(!*s[o], "a moved-from pointer still points somewhere");
            return true;
        case 3:
            if (!W::assignable || t == 1)
                return false;
            note("swap(a, b)");
            w.swap(*s[0], *s[1]);
            std::swap(m[0], m[1]);
            return true;
        case 4:
        {
            note("new %c from moved %c", 'a' + t, 'a' + o);
            s[t].kill();
            s[t].make(std::move(*s[o]));
            m[t] = m[o];
            m[o] = Model{};
            return true;
        }
        case 5:
        {
            if (!m[t].live)
                return false;
            note("%c.release() and give the object to its deleter", 'a' + t);
            auto* p = s[t]->release();
            s[t]->get_deleter()(p);
            m[t] = Model{};
            return true;
        }
        case 6:
        {
            if (!m[t].live)
                return false;
            note("local copy of %c dies", 'a' + t);
            {
                Ptr local(std::move(*s[t]));
            }
            m[t] = Model{};
            return true;
        }
        default:
            if (!W::assignable)
                return false;
            note("%c = nullptr", 'a' + t);
            *s[t] = nullptr;
            m[t]  = Model{};
            return true;
        }
    }
};
template <typename W>
void run_world()
{
    Owner<W>  w;
    const int depth = ex().depth;
    for (int d = 0;; d++)
    {
        const Key k = w.key();
        if (unseen(k))
            w.check_all();
        if (!boundary(k, depth - d) || d == depth)
            return;
        if (!w.step())
            return;
        transition();
        w.check_lifetimes();
    }
}

// ------------------------------------------------------------------- Factory
template <typename T, template <typename> class Source, bool A>
struct ByFactory
{
    using Al                          = typename Source<T>::type;
    using Ptr                         = cetl::pmr::Factory::unique_ptr_t<Al>;
    static constexpr int  kinds       = 1;
    static constexpr bool assignable  = A;
    static Ptr            made(Al& a, int args)
    {
        return args == 0 ? cetl::pmr::Factory::make_unique(a)
                         : (args == 1 ? cetl::pmr::Factory::make_unique(a, 1) : cetl::pmr::Factory::make_unique(a, 1, 1));
    }
    void make_null(Slot<Ptr>& s, int r) { s.make(nullptr, typename Ptr::deleter_type{Source<T>::make(r), 1}); }
    void make(Slot<Ptr>& s, int, int args, int r, bool asg)
    {
        Al a = Source<T>::make(r);
        if (asg)
            put(*s, a, args, std::integral_constant<bool, A>{});
        else
            s.make(made(a, args));
    }
    static void put(Ptr& p, Al& a, int args, std::true_type) { p = made(a, args); }
    static void put(Ptr&, Al&, int, std::false_type) {}
    static void assign(Ptr& a, Ptr& b) { assign(a, b, std::integral_constant<bool, A>{}); }
    static void assign(Ptr& a, Ptr& b, std::true_type) { a = std::move(b); }
    static void assign(Ptr&, Ptr&, std::false_type) {}
    static void swap(Ptr& a, Ptr& b) { swap(a, b, std::integral_constant<bool, A>{}); }
    static void swap(Ptr& a, Ptr& b, std::true_type) { a.swap(b); }
    static void swap(Ptr&, Ptr&, std::false_type) {}
    static int  value(const T* p) { return p->get(); }
    static void check(const T* p, const Model& m) { check_block(p, m.res); }
};

// ------------------------------------------------------------------- interfaces
struct Other
{
    long filler = 77;
};
struct IThing  // without a virtual destructor: the concrete type must be remembered
{
    virtual int get() const = 0;

protected:
    ~IThing() = default;
};
struct ThingA final : IThing
{
    Elem<kE, 1> e;
    ThingA() {}
    explicit ThingA(int v) : e(v) {}
    ThingA(int v, int w) : e(v, w) {}
    int get() const override { return e.get(); }
};
struct alignas(64) ThingB final : Other, IThing  // the interface is not at the start of the object
{
    Elem<kE | kBig, 2> e;
    ThingB() {}
    explicit ThingB(int v) : e(v) {}
    ThingB(int v, int w) : e(v, w) {}
    int get() const override { return e.get(); }
};
struct ThingC : Other, virtual Elem<kE, 4>, IThing
{
    ThingC() {}
    explicit ThingC(int v) : Elem<kE, 4>(v) {}
    ThingC(int v, int w) : Elem<kE, 4>(v, w) {}
    ~ThingC() = default;
    int get() const override { return Elem<kE, 4>::get(); }
};
template <template <typename> class Source>
struct ByInterface
{
    using Ptr                        = cetl::pmr::InterfacePtr<IThing>;
    static constexpr int  kinds      = 3;
    static constexpr bool assignable = true;
    template <typename C>
    static Ptr made(int args, int r)
    {
        using F = cetl::pmr::InterfaceFactory;
        auto a  = Source<C>::make(r);
        return args == 0 ? F::make_unique<IThing>(a) : (args == 1 ? F::make_unique<IThing>(a, 1) : F::make_unique<IThing>(a, 1, 1));
    }
    static Ptr made(int kind, int args, int r)
    {
        return kind == 0 ? made<ThingA>(args, r) : (kind == 1 ? made<ThingB>(args, r) : made<ThingC>(args, r));
    }
    void make_null(Slot<Ptr>& s, int) { s.make(); }
    void make(Slot<Ptr>& s, int kind, int args, int r, bool asg)
    {
        if (asg)
            *s = made(kind, args, r);
        else
            s.make(made(kind, args, r));
    }
    static void assign(Ptr& a, Ptr& b) { a = std::move(b); }
    static void swap(Ptr& a, Ptr& b) { a.swap(b); }
    static int  value(const IThing* p) { return p->get(); }
    static void check(const IThing* p, const Model& m)
    {
        if (m.kind == 0)
            check_block(static_cast<const ThingA*>(p), m.res);
        else if (m.kind == 1)
            check_block(static_cast<const ThingB*>(p), m.res);
        else
            check_block(static_cast<const ThingC*>(p), m.res);
    }
};

// ------------------------------------------------------------------- memory-only deleters
/// Two pointers to raw memory. A deleter that was moved from must not be moved from again (its own assertion).
void memory_only()
{
    using Del = cetl::pmr::MemoryResourceDeleter<cetl::pmr::memory_resource>;
    using Ptr = std::unique_ptr<void, Del>;
    struct M
    {
        bool        usable = true;  // the deleter knows a resource
        bool        live   = false;
        int         res    = 0;
        std::size_t size = 8, align = 8;
    } m[2];
    Slot<Ptr>                s[2];
    static const std::size_t sizes[] = {1, 24}, aligns[] = {1, 16};
    for (int i = 0; i < 2; i++)
        s[i].make(nullptr, Del{&res(0), 8, 8});
    for (int d = 0;; d++)
    {
        StateHash h;
        for (auto& x : m)
            h.h.u64((x.usable ? 1000000U : 0U) + (x.live ? 100000U : 0U) + static_cast<unsigned>(x.res) * 10000U + x.size * 100U + x.align);
        const Key k = h.finish();
        if (unseen(k))
            for (int i = 0; i < 2; i++)
            {
                MC_CHECK(static_cast<bool>(*s[i]) == m[i].live, "pointer %c is %s", 'a' + i, *s[i] ? "set" : "null");
                if (m[i].usable)
                {
                    const Del& del = s[i]->get_deleter();
                    MC_CHECK(del.resource() == &res(m[i].res) && del.size() == m[i].size && del.alignment() == m[i].align, "the deleter of %c describes another block", 'a' + i);
                }
            }
        if (!boundary(k, ex().depth - d) || d == ex().depth)
            return;
        const int t = static_cast<int>(choose(2)), o = 1 - t;
        switch (choose(5))
        {
        case 0:
        {
            const int         r = static_cast<int>(choose(2));
            const std::size_t z = sizes[choose(2)], al = aligns[choose(2)];
            const bool        asg = choose(2) == 1;
            note("%s%c holds %zu bytes aligned to %zu from resource %d", asg ? "" : "new ", 'a' + t, z, al, r);
            void* const p = res(r).allocate(z, al);
            if (asg)
                *s[t] = Ptr(p, Del{&res(r), z, al});
            else
                s[t].make(p, Del{&res(r), z, al});
            m[t] = M{true, true, r, z, al};
            break;
        }
        case 1:
            note("%c.reset()", 'a' + t);
            s[t]->reset();
            m[t].live = false;
            break;
        case 2:
            if (!m[o].usable)
                return;
            note("%c = move(%c)", 'a' + t, 'a' + o);
            *s[t]       = std::move(*s[o]);
            m[t]        = m[o];
            m[o].live   = false;
            m[o].usable = false;
            break;
        case 3:
            if (t == 1 || !m[0].usable || !m[1].usable)
                return;
            note("swap(a, b)");
            s[0]->swap(*s[1]);
            std::swap(m[0], m[1]);
            break;
        default:
            if (!m[o].usable)
                return;
            note("new %c from moved %c", 'a' + t, 'a' + o);
            s[t].kill();
            s[t].make(std::move(*s[o]));
            m[t]        = m[o];
            m[o].live   = false;
            m[o].usable = false;
        }
        transition();
        std::size_t n = 0;
        for (auto& x : m)
            n += x.live ? 1U : 0U;
        MC_CHECK(live_blocks() == n, "%zu blocks held by %zu pointers", live_blocks(), n);
    }
}

struct ISink
{
    virtual fwd::Sink get() const = 0;

protected:
    ~ISink() = default;
};
struct Made final : fwd::Sink, ISink
{
    using Sink::Sink;
    fwd::Sink get() const override { return *this; }
};
template <template <typename> class Source>
void forwarding()
{
    auto       a = Source<fwd::Sink>::make(0);
    const auto b = Source<Made>::make(0);
    const std::initializer_list<int> il = {1, 2};
    fwd::every("Factory", FWD_LAMBDA { return *cetl::pmr::Factory::make_unique(a, FWD_ARGS); });
    fwd::every("Factory with a list", FWD_LAMBDA { return *cetl::pmr::Factory::make_unique(a, il, FWD_ARGS); }, 2);
    fwd::every("InterfaceFactory", FWD_LAMBDA { return cetl::pmr::InterfaceFactory::make_unique<ISink>(b, FWD_ARGS)->get(); });
    fwd::every("InterfaceFactory with a list", FWD_LAMBDA { return cetl::pmr::InterfaceFactory::make_unique<ISink>(b, il, FWD_ARGS)->get(); }, 2);
}

// ------------------------------------------------------------------- deleters for several objects
template <typename Del, typename Alloc1>
Del make_deleter(const Alloc1& a, std::size_t n)
{
    return Del(a, n);
}
/// A deleter releases a block for the number of objects it was made for, through any chain of copies and moves.
template <template <typename> class Source, bool Assignable>
struct Counts
{
    using T     = Elem<kCopy | kSelf, 1>;
    using Alloc_ = typename Source<T>::type;
    using Del   = cetl::pmr::PolymorphicDeleter<Alloc_>;
    static void asg(Del& a, Del& b, bool mv, std::true_type)
    {
        if (mv)
            a = std::move(b);
        else
            a = static_cast<const Del&>(b);
    }
    static void asg(Del&, Del&, bool, std::false_type) {}
    static void run()
    {
        const int n = range(1, 9), other = range(1, 3), form = range(0, Assignable ? 4 : 2), r = range(0, 1);
        note("form %d: block of %d objects from resource %d", form, n, r);
        auto a = Source<T>::make(r), b = Source<T>::make(1 - r);
        T* const p = a.allocate(static_cast<std::size_t>(n));
        a.construct(p, 3);
        Del from(a, static_cast<std::size_t>(n)), to(b, static_cast<std::size_t>(other));
        transition();
        switch (form)
        {
        case 0: from(p); break;
        case 1:
        {
            Del c(static_cast<const Del&>(from));
            c(p);
            break;
        }
        case 2:
        {
            Del c(std::move(from));
            c(p);
            break;
        }
        default:
            asg(to, from, form == 4, std::integral_constant<bool, Assignable>{});
            to(p);
        }
        MC_CHECK(live_blocks() == 0 && live_objects() == 0, "the block was not released");
        Hasher h;
        h.u64(static_cast<std::uint64_t>(((n * 10 + other) * 10 + form) * 10 + r));
        outcome(h.key());
    }
    /// The same for a deleter behind an interface.
    static void interface()
    {
        const int n = range(1, 9), form = range(0, 3), r = range(0, 1), kind = range(0, 1);
        note("form %d: block of %d objects from resource %d", form, n, r);
        if (kind == 0)
            interface_of<ThingA>(n, form, r);
        else
            interface_of<ThingB>(n, form, r);
        Hasher h;
        h.u64(static_cast<std::uint64_t>(((n * 10 + form) * 10 + r) * 10 + kind));
        outcome(h.key());
    }
    template <typename C>
    static void interface_of(int n, int form, int r)
    {
        using IDel = cetl::pmr::PmrInterfaceDeleter<IThing>;
        auto     a = Source<C>::make(r);
        C* const p = a.allocate(static_cast<std::size_t>(n));
        a.construct(p, 3);
        cetl::pmr::InterfacePtr<IThing> one(p, IDel(a, static_cast<std::size_t>(n)));
        transition();
        switch (form)
        {
        case 0: one.reset(); break;
        case 1: { cetl::pmr::InterfacePtr<IThing> two(std::move(one)); break; }
        case 2:
        {
            cetl::pmr::InterfacePtr<IThing> two;
            two = std::move(one);
            break;
        }
        default:
        {
            IDel     copy(one.get_deleter());
            one.release();
            copy(static_cast<IThing*>(p));
        }
        }
        MC_CHECK(live_blocks() == 0 && live_objects() == 0, "the block was not released");
    }
};
/// Memory-only deleters describe exactly the block they were made for.
void descriptions()
{
    using Del = cetl::pmr::MemoryResourceDeleter<cetl::pmr::memory_resource>;
    static const std::size_t sizes[] = {0, 1, 255, 256, 65535, 65536, 70000};
    const std::size_t        size = sizes[choose(7)], align = std::size_t(1) << choose(9);
    const int                form = range(0, 2), r = range(0, 1);
    note("form %d: %zu bytes aligned to %zu from resource %d", form, size, align, r);
    const bool  plain = align == alignof(std::max_align_t) && choose(2) == 1;
    void* const p     = plain ? res(r).allocate(size) : res(r).allocate(size, align);
    Del         one   = plain ? Del{&res(r), size} : Del{&res(r), size, align};
    Del         two{&res(1 - r), 3, 2};
    transition();
    if (form == 1)
        two = std::move(one);
    Del  three(form == 2 ? std::move(one) : Del{&res(0), 1, 1});
    Del& d = form == 0 ? one : (form == 1 ? two : three);
    MC_CHECK(d.resource() == &res(r) && d.size() == size && d.alignment() == align, "the deleter describes another block");
    d(p);
    MC_CHECK(live_blocks() == 0, "the block was not released");
    Hasher h;
    h.u64(size);
    h.u64(align * 100 + static_cast<std::size_t>(form * 10 + r) + (plain ? 5U : 0U));
    outcome(h.key());
}
/// Objects that want to know the allocator they live in.
struct IKnows
{
    virtual int resource() const = 0;
    virtual int value() const    = 0;

protected:
    ~IKnows() = default;
};
template <bool Leading>
struct Knows final : IKnows
{
    using allocator_type = cetl::pmr::polymorphic_allocator<int>;
    int r = -1, v = 0;
    Knows() = default;
    explicit Knows(int x) : v(x) {}
    Knows(std::allocator_arg_t, const allocator_type& a) : r(Leading ? res_id(a.resource()) : -5) {}
    Knows(std::allocator_arg_t, const allocator_type& a, int x) : r(Leading ? res_id(a.resource()) : -5), v(x) {}
    int resource() const override { return r; }
    int value() const override { return v; }
};
template <>
struct Knows<false> final : IKnows
{
    using allocator_type = cetl::pmr::polymorphic_allocator<int>;
    int r = -1, v = 0;
    Knows() = default;
    explicit Knows(int x) : v(x) {}
    explicit Knows(const allocator_type& a) : r(res_id(a.resource())) {}
    Knows(int x, const allocator_type& a) : r(res_id(a.resource())), v(x) {}
    int resource() const override { return r; }
    int value() const override { return v; }
};
template <typename K>
void knows()
{
    const int r = range(0, 1), args = range(0, 1), face = range(0, 1);
    note("object that takes its allocator, %d arguments, resource %d, %s", args, r, face ? "behind an interface" : "as it is");
    cetl::pmr::polymorphic_allocator<K> a(&res(r));
    transition();
    if (face)
    {
        using F = cetl::pmr::InterfaceFactory;
        auto p  = args ? F::make_unique<IKnows>(a, 4) : F::make_unique<IKnows>(a);
        MC_CHECK(p->resource() == r && p->value() == 4 * args, "the object got resource %d and value %d", p->resource(), p->value());
    }
    else
    {
        using F = cetl::pmr::Factory;
        auto p  = args ? F::make_unique(a, 4) : F::make_unique(a);
        MC_CHECK(p->resource() == r && p->value() == 4 * args, "the object got resource %d and value %d", p->resource(), p->value());
    }
    Hasher h;
    h.u64(static_cast<std::uint64_t>(r * 4 + args * 2 + face));
    outcome(h.key());
}
/// Objects of many sizes.
struct ISized
{
    virtual bool intact(int seed) const = 0;

protected:
    ~ISized() = default;
};
template <std::size_t N>
struct Sized final : Other, ISized
{
    unsigned char b[N];
    explicit Sized(int seed)
    {
        for (std::size_t i = 0; i < N; i++)
            b[i] = static_cast<unsigned char>(static_cast<std::size_t>(seed) * 41 + i * 7 + (i >> 8));
    }
    bool intact(int seed) const override
    {
        for (std::size_t i = 0; i < N; i++)
            if (b[i] != static_cast<unsigned char>(static_cast<std::size_t>(seed) * 41 + i * 7 + (i >> 8)))
                return false;
        return true;
    }
};
template <std::size_t N>
void sized(int r, int face)
{
    note("object of %zu bytes, resource %d, %s", sizeof(Sized<N>), r, face ? "behind an interface" : "as it is");
    cetl::pmr::polymorphic_allocator<Sized<N>> a(&res(r));
    transition();
    if (face)
    {
        auto p = cetl::pmr::InterfaceFactory::make_unique<ISized>(a, 5);
        check_block(static_cast<const Sized<N>*>(p.get()), r);
        auto q = std::move(p);
        MC_CHECK(q->intact(5) && live_blocks() == 1, "the object is damaged");
    }
    else
    {
        auto p = cetl::pmr::Factory::make_unique(a, 5);
        check_block(p.get(), r);
        auto q = std::move(p);
        MC_CHECK(q->intact(5) && live_blocks() == 1, "the object is damaged");
    }
    MC_CHECK(live_blocks() == 0, "the object was not released");
    Hasher h;
    h.u64(N * 4 + static_cast<std::size_t>(r * 2 + face));
    outcome(h.key());
}
void sizes()
{
    const int r = range(0, 1), face = range(0, 1);
    switch (choose(10))
    {
    case 0: return sized<1>(r, face);
    case 1: return sized<64>(r, face);
    case 2: return sized<120>(r, face);
    case 3: return sized<255>(r, face);
    case 4: return sized<256>(r, face);
    case 5: return sized<1000>(r, face);
    case 6: return sized<4096>(r, face);
    case 7: return sized<65535>(r, face);
    case 8: return sized<65536>(r, face);
    default: return sized<70000>(r, face);
    }
}

#if !defined(PART) || PART == 0
constexpr bool pmr_assignable = std::is_copy_assignable<cetl::pmr::polymorphic_allocator<int>>::value;
MC_SCENARIO("factory/pmr", 5, 2, 9, 3, [] { run_world<ByFactory<Elem<kE, 1>, PmrSource, pmr_assignable>>(); });
MC_SCENARIO("factory/pmr-aligned", 5, 2, 9, 3, [] { run_world<ByFactory<Elem<kE | kBig | kAlign, 1>, PmrSource, pmr_assignable>>(); });
MC_SCENARIO("factory/own", 5, 2, 9, 3, [] { run_world<ByFactory<Elem<kE, 1>, OwnSource, true>>(); });
MC_SCENARIO("factory/own-aligned", 5, 2, 9, 3, [] { run_world<ByFactory<Elem<kE | kBig | kAlign, 1>, OwnSource, true>>(); });
MC_SCENARIO("memory-only", 5, 0, 9, 0, [] { memory_only(); });
#elif PART == 2
MC_SCENARIO("counts/pmr", 0, 0, 0, 0, (&Counts<PmrSource, std::is_copy_assignable<cetl::pmr::polymorphic_allocator<int>>::value>::run));
MC_SCENARIO("counts/own", 0, 0, 0, 0, (&Counts<OwnSource, true>::run));
MC_SCENARIO("counts/interface-pmr", 0, 0, 0, 0, (&Counts<PmrSource, false>::interface));
MC_SCENARIO("counts/interface-own", 0, 0, 0, 0, (&Counts<OwnSource, true>::interface));
MC_SCENARIO("descriptions", 0, 0, 0, 0, [] { descriptions(); });
MC_SCENARIO("uses-allocator/leading", 0, 0, 0, 0, [] { knows<Knows<true>>(); });
MC_SCENARIO("uses-allocator/trailing", 0, 0, 0, 0, [] { knows<Knows<false>>(); });
MC_SCENARIO("sizes", 0, 0, 0, 0, [] { sizes(); });
#else
MC_SCENARIO("forwarding/pmr", 0, 0, 0, 0, [] { forwarding<PmrSource>(); });
MC_SCENARIO("forwarding/own", 0, 0, 0, 0, [] { forwarding<OwnSource>(); });
MC_SCENARIO("interface/pmr", 4, 2, 9, 3, [] { run_world<ByInterface<PmrSource>>(); });
MC_SCENARIO("interface/own", 4, 2, 9, 3, [] { run_world<ByInterface<OwnSource>>(); });
#endif
}  // namespace
