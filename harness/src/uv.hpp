// World of two unbounded variants and a tagged model of each. Shared by C08..C10.
#ifndef UV_WORLD_HPP
#define UV_WORLD_HPP

#include "../resource.hpp"

#include <cetl/rtti.hpp>
#include <cetl/unbounded_variant.hpp>

namespace uv
{
using namespace mc;

enum Kind
{
    kFull,      // copy and move
    kMoveOnly,  // move
    kCopyOnly,  // copies only
    kPinned     // neither
};
template <unsigned P, int Tag>
struct Pinned : Elem<P, Tag>
{
    using Elem<P, Tag>::Elem;
    Pinned(const Pinned&)            = delete;
    Pinned(Pinned&&)                 = delete;
    Pinned& operator=(const Pinned&) = delete;
    Pinned& operator=(Pinned&&)      = delete;
};
/// No move operations are declared at all, so that even traits see a copy.
template <unsigned P, int Tag>
struct Copied : Elem<P, Tag>
{
    using Elem<P, Tag>::Elem;
    Copied(const Copied& o) noexcept(!(P & kThrowCopy)) : Elem<P, Tag>(static_cast<const Elem<P, Tag>&>(o)) {}
    Copied& operator=(const Copied& o)
    {
        Elem<P, Tag>::operator=(static_cast<const Elem<P, Tag>&>(o));
        return *this;
    }
};
template <int K, unsigned P, int Tag>
using Pick = std::conditional_t<
    K == kFull,
    Elem<P, Tag>,
    std::conditional_t<K == kMoveOnly, MoveOnly<P, Tag>, std::conditional_t<K == kCopyOnly, Copied<P, Tag>, Pinned<P, Tag>>>>;

constexpr unsigned kThrowing = kThrowDef | kThrowCopy | kThrowMove;

/// Identified through a specialisation-free member, as the library asks for.
template <typename B, std::uint8_t Id>
struct WithId : B
{
    using B::B;
    static constexpr cetl::type_id _get_type_id_() noexcept { return cetl::type_id_type_value<cetl::type_id_type<0x10, Id>>(); }
};
struct Base1 : cetl::rtti_helper<cetl::type_id_type<0xB1>>
{
    long b1 = 101;
};
struct Base2 : cetl::rtti_helper<cetl::type_id_type<0xB2>>
{
    long b2 = 102;
};
struct Stranger : cetl::rtti_helper<cetl::type_id_type<0xEE>>
{};
template <typename E>
struct Derived : cetl::rtti_helper<cetl::type_id_type<0xD1>, Base1, Base2>
{
    E                    e;
    static constexpr int type = E::type;
    explicit Derived(int v) : e(v) {}
    Derived(int v, int w) : e(v, w) {}
    Derived(std::initializer_list<int> l, int add) : e(add)
    {
        for (int x : l)
            e.v += x;
    }
    int get() const { return e.get(); }
};

template <std::size_t F, int K, std::size_t A, bool Pmr, unsigned P>
struct Profile
{
    static constexpr bool        copyable  = K == kFull || K == kCopyOnly;
    static constexpr bool        movable   = K == kFull || K == kMoveOnly;
    static constexpr bool        pmr       = Pmr;
    static constexpr std::size_t footprint = F;
    static constexpr std::size_t align     = A;
    static constexpr unsigned    big       = (A >= 64) ? (kBig | kAlign) : kBig;
    using V  = cetl::unbounded_variant<F, copyable, movable, A, std::conditional_t<Pmr, cetl::pmr::memory_resource, void>>;
    using T0 = int;
    using T1 = WithId<Pick<K, P | kCopy | kSelf, 1>, 1>;
    using T2 = WithId<Pick<K, P | kCopy | kSelf | big, 2>, 2>;
    using T3 = Derived<Pick<K, P | kCopy, 3>>;
};
}  // namespace uv
namespace cetl
{
template <>
constexpr type_id type_id_getter<int>() noexcept
{
    return {{1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11, 12, 13, 14, 15, 16}};
}
template <>
constexpr type_id type_id_getter<char>() noexcept  // differs from int in the last byte only
{
    return {{1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11, 12, 13, 14, 15, 17}};
}
}  // namespace cetl
namespace uv
{
template <typename T>
struct tag
{
    using type = T;
};
template <typename P, typename F>
void with_type(int k, F&& f)
{
    switch (k)
    {
    case 0: f(tag<typename P::T0>{}); break;
    case 1: f(tag<typename P::T1>{}); break;
    case 2: f(tag<typename P::T2>{}); break;
    default: f(tag<typename P::T3>{}); break;
    }
}
template <typename T>
struct Obj
{
    static constexpr int tracked = T::type;
};
template <>
struct Obj<int>
{
    static constexpr int tracked = -1;
};

constexpr int kEmpty = -1;
constexpr int kLost  = -2;
struct Model
{
    int  t   = kEmpty;
    int  v   = 0;
    int  res = 0;
    bool same(const Model& o) const { return t == o.t && (t < 0 || v == o.v); }
};

struct Cfg
{
    int  types;     // how many of the four types
    int  first;     // first type
    int  vals;      // values 1..vals
    bool recreate;  // constructors as operations
    bool alias;     // assigning a stored value to its own variant
    bool peek;      // in-place modification and moving the value out
};

template <typename P>
class World
{
public:
    using V = typename P::V;
    explicit World(const Cfg& c) : cfg(c)
    {
        for (int i = 0; i < 2; i++)
        {
            m[i].res = P::pmr ? i : 0;
            make_empty(i, i, std::integral_constant<bool, P::pmr>{});
        }
    }

    Key key()
    {
        StateHash s;
        for (auto& x : m)
        {
            s.h.u64(static_cast<std::uint64_t>(x.t + 10));
            s.h.u64(static_cast<std::uint64_t>(x.v));
            s.h.u64(static_cast<std::uint64_t>(x.res));
        }
        s.h.u64(static_cast<std::uint64_t>(ex().faults_left));
        return s.finish();
    }

    // ------------------------------------------------------------------------------------ whole surface
    void check_all()
    {
        for (int i = 0; i < 2; i++)
            check_one(i);
        MC_CHECK(cetl::get_if<int>(static_cast<V*>(nullptr)) == nullptr, "get_if of null is not null");
        MC_CHECK(cetl::get_if<int>(static_cast<const V*>(nullptr)) == nullptr, "get_if of null is not null");
    }
    void check_one(int i)
    {
        V&       x  = *s[i];
        const V& cx = x;
        MC_CHECK(cx.has_value() == (m[i].t >= 0), "variant %c: has_value() is %d, expected %d", 'a' + i, cx.has_value(), m[i].t >= 0);
        MC_CHECK(cx.valueless_by_exception() == (m[i].t == kLost),
                 "variant %c: valueless_by_exception() is %d, expected %d",
                 'a' + i,
                 cx.valueless_by_exception(),
                 m[i].t == kLost);
        if (m[i].t < 0)
        {
            MC_CHECK(cx.type_size() == 0, "variant %c holds nothing but has a type size of %zu", 'a' + i, cx.type_size());
            MC_CHECK(cx.type_id() == cetl::type_id_value<void>, "variant %c holds nothing but has a type", 'a' + i);
        }
        for (int k = 0; k < 4; k++)
            with_type<P>(k, [&](auto t) { check_type(i, k, t); });
        check_absent<char>(i, "a type with a similar identity");
        check_absent<Stranger>(i, "an unrelated class");
        check_base<Base1>(i, "first base");
        check_base<Base2>(i, "second base");
        check_res(i, std::integral_constant<bool, P::pmr>{});
    }
    template <typename Tag>
    void check_type(int i, int k, Tag)
    {
        using T     = typename Tag::type;
        V&       x  = *s[i];
        const V& cx = x;
        T*       p  = cetl::get_if<T>(&x);
        const T* cp = cetl::get_if<T>(&cx);
        MC_CHECK(p == cp, "variant %c: constant and mutable access disagree", 'a' + i);
        if (m[i].t != k)
        {
            MC_CHECK(p == nullptr, "variant %c: access as type %d succeeds but type %d is stored", 'a' + i, k, m[i].t);
            check_bad<T>(i);
            return;
        }
        MC_CHECK(p != nullptr, "variant %c: access as the stored type %d fails", 'a' + i, k);
        MC_CHECK(val(*p) == m[i].v, "variant %c: holds %d of type %d, expected %d", 'a' + i, val(*p), k, m[i].v);
        MC_CHECK(cx.type_size() == sizeof(T), "variant %c: type size %zu, expected %zu", 'a' + i, cx.type_size(), sizeof(T));
        MC_CHECK(cx.type_id() == cetl::type_id_value<T>, "variant %c: wrong type identity", 'a' + i);
        MC_CHECK(&cetl::get<T&>(x) == p && &cetl::get<const T&>(cx) == p && &cetl::get<const T&>(x) == p, "variant %c: get() yields another object", 'a' + i);
        MC_CHECK(reinterpret_cast<std::uintptr_t>(p) % alignof(T) == 0, "variant %c: value is misaligned", 'a' + i);
        const char* c      = reinterpret_cast<const char*>(p);
        const char* self   = reinterpret_cast<const char*>(&x);
        const bool  inside = c >= self && c + sizeof(T) <= self + sizeof(V);
        MC_CHECK(inside == (sizeof(T) <= P::footprint), "variant %c: a value of %zu bytes is stored %s (footprint %zu)", 'a' + i, sizeof(T), inside ? "inside" : "outside", P::footprint);
        if (!inside)
        {
            const Block* b = containing_block(c);
            MC_CHECK(b != nullptr && b->p == c, "variant %c: value is not at the start of an allocated block", 'a' + i);
            MC_CHECK(b->res == m[i].res, "variant %c: value lives in a block of resource %d, expected %d", 'a' + i, b->res, m[i].res);
            MC_CHECK(b->size >= sizeof(T) && b->align % alignof(T) == 0, "variant %c: block does not suit the value", 'a' + i);
        }
    }
    template <typename T>
    void check_bad(int i)
    {
#if defined(__cpp_exceptions)
        V&       x      = *s[i];
        const V& cx     = x;
        int      thrown = 0;
        try
        {
            (void) cetl::get<T&>(x);
        } catch (const cetl::bad_unbounded_variant_access&)
        {
            thrown++;
        }
        try
        {
            (void) cetl::get<const T&>(cx);
        } catch (const cetl::bad_unbounded_variant_access&)
        {
            thrown++;
        }
        MC_CHECK(thrown == 2, "variant %c: access as a type that is not stored is not rejected", 'a' + i);
#endif
    }
    template <typename T>
    void check_absent(int i, const char* what)
    {
        const V& cx = *s[i];
        MC_CHECK(cetl::get_if<T>(&*s[i]) == nullptr && cetl::get_if<T>(&cx) == nullptr, "variant %c: access as %s succeeds", 'a' + i, what);
    }
    template <typename B>
    void check_base(int i, const char* what)
    {
        const V& cx = *s[i];
        B*       b  = cetl::get_if<B>(&*s[i]);
        const B* cb = cetl::get_if<B>(&cx);
        if (m[i].t == 3)
        {
            B* const expected = static_cast<B*>(cetl::get_if<typename P::T3>(&*s[i]));
            MC_CHECK(b == expected && cb == expected, "variant %c: access as the %s does not reach the stored object", 'a' + i, what);
        }
        else
        {
            MC_CHECK(b == nullptr && cb == nullptr, "variant %c: access as the %s succeeds without such an object", 'a' + i, what);
        }
    }
    void check_res(int, std::false_type) {}
    void check_res(int i, std::true_type)
    {
        const V& x = *s[i];
        MC_CHECK(x.get_memory_resource() == &res(m[i].res), "variant %c: memory resource is %d, expected %d", 'a' + i, res_id(x.get_memory_resource()), m[i].res);
    }
    /// Balance of objects and blocks after each operation.
    void check_lifetimes()
    {
        std::size_t objects = 0, blocks = 0, slack = 0;
        for (auto& x : m)
        {
            if (x.t == kLost)
                slack++;
            if (x.t < 0)
                continue;
            objects += (x.t != 0) ? 1U : 0U;
            with_type<P>(x.t, [&](auto t) {
                using T = typename decltype(t)::type;
                blocks += (sizeof(T) > P::footprint) ? 1U : 0U;
            });
        }
        MC_CHECK(live_objects() == objects, "%zu values alive, %zu expected", live_objects(), objects);
        MC_CHECK(live_blocks() >= blocks && live_blocks() <= blocks + slack, "%zu blocks held for %zu values", live_blocks(), blocks);
    }

    // ------------------------------------------------------------------------------------ operations
    bool step()
    {
        const int t = static_cast<int>(choose(2)), o = 1 - t;
        switch (choose(12))
        {
        case 0: return op_emplace(t);
        case 1: return op_assign_value(t, std::integral_constant<bool, (P::copyable || P::movable)>{});
        case 2:
            note("%c.reset()", 'a' + t);
            s[t]->reset();
            m[t].t = kEmpty;
            return true;
        case 3: return op_reset_res(t, std::integral_constant<bool, P::pmr>{});
        case 4: return op_copy(t, choose(2) ? t : o, std::integral_constant<bool, P::copyable>{});
        case 5: return op_move(t, choose(2) ? t : o, std::integral_constant<bool, P::movable>{});
        case 6: return t == 0 && op_swap(0, choose(2) ? 0 : 1, std::integral_constant<bool, (P::copyable || P::movable)>{});
        case 7: return cfg.recreate && op_recreate(t);
        case 8: return cfg.recreate && op_construct_from(t, o);
        case 9: return cfg.peek && op_peek(t, std::integral_constant<bool, (P::copyable || P::movable)>{});
        case 10: return cfg.alias && op_alias(t, std::integral_constant<bool, (P::copyable || P::movable)>{});
        default: return cfg.alias && op_self_emplace(t, std::integral_constant<bool, P::copyable>{});
        }
    }

private:
    int pick_type() { return cfg.first + static_cast<int>(choose(static_cast<unsigned>(cfg.types))); }
    int pick_val() { return 1 + static_cast<int>(choose(static_cast<unsigned>(cfg.vals))); }

    void make_empty(int i, int, std::false_type)
    {
        s[i].make();
        m[i] = Model{};
    }
    void make_empty(int i, int r, std::true_type)
    {
        s[i].make(&res(r));
        m[i]     = Model{};
        m[i].res = r;
    }

    /// Without exceptions running out of memory shows in the state only.
    static bool lost_quietly(V& x)
    {
#if defined(__cpp_exceptions)
        (void) x;
        return false;
#else
        return ex().faults_used > 0 && x.valueless_by_exception();
#endif
    }
    void stored(Out out, int i, int k, int v, std::uint64_t ctors, bool exact)
    {
        if (out == Out::ok && !(faulted() && lost_quietly(*s[i])))
        {
            m[i].t = k;
            m[i].v = v;
            if (exact && k != 0)
                MC_CHECK(tr().ctors - ctors == 1, "%llu constructions for one stored value", static_cast<unsigned long long>(tr().ctors - ctors));
            return;
        }
        MC_CHECK(faulted(), "storing fails with %s without a reason", name(out));
        MC_CHECK(out != Out::other && out != Out::length, "storing fails with %s", name(out));
        m[i].t = kLost;
    }
    void begin_op() { used0 = ex().faults_used; }
    bool faulted() const { return ex().faults_used > used0; }

    bool op_emplace(int t)
    {
        const int k = pick_type();
        const int v = pick_val();
        const int f = (k == 3) ? static_cast<int>(choose(3)) : static_cast<int>(choose(k == 0 ? 1 : 2));
        static const char* const forms[] = {"value", "two arguments", "list"};
        note("%c.emplace<%d>(%d) [%s]", 'a' + t, k, v, forms[f]);
        const std::uint64_t ctors = tr().ctors;
        begin_op();
        Out   out = Out::other;
        void* ret = nullptr;
        with_type<P>(k, [&](auto tg) {
            using T = typename decltype(tg)::type;
            out     = guarded([&] { ret = do_emplace(tg, t, v, f); });
            if (out == Out::ok)
                MC_CHECK((ret == nullptr) ? faulted() : (ret == cetl::get_if<T>(&*s[t])), "emplace() returns something else than the stored value");
        });
        stored(out, t, k, v, ctors, true);
        return true;
    }
    void* do_emplace(tag<int>, int t, int v, int) { return s[t]->template emplace<int>(v); }
    template <typename T>
    void* do_emplace(tag<T>, int t, int v, int f)
    {
        return f == 0 ? s[t]->template emplace<T>(v) : s[t]->template emplace<T>(v - 1, 1);
    }
    template <typename E>
    void* do_emplace(tag<Derived<E>>, int t, int v, int f)
    {
        return f == 0 ? s[t]->template emplace<Derived<E>>(v)
                      : (f == 1 ? s[t]->template emplace<Derived<E>>(v - 1, 1)
                                : s[t]->template emplace<Derived<E>>({v - 2, 1}, 1));
    }

    bool op_assign_value(int, std::false_type) { return false; }
    bool op_assign_value(int t, std::true_type)
    {
        const int  k  = pick_type();
        const int  v  = pick_val();
        const bool rv = !P::copyable || choose(2) == 1;
        note("%c = %s value %d of type %d", 'a' + t, rv ? "rvalue" : "lvalue", v, k);
        begin_op();
        with_type<P>(k, [&](auto tg) {
            using T = typename decltype(tg)::type;
            ArmFaults off(false);
            T         x(v);
            Out       out = assign_value(*s[t], x, rv, std::integral_constant<bool, P::copyable>{});
            if (!rv)
                MC_CHECK(val(x) == v, "assigning changes its source");
            stored(out, t, k, v, 0, false);
        });
        return true;
    }
    template <typename T>
    Out assign_value(V& x, T& value, bool rv, std::true_type)
    {
        return rv ? guarded([&] { MC_CHECK(&(x = std::move(value)) == &x, "assignment returns another object"); })
                  : guarded([&] { MC_CHECK(&(x = static_cast<const T&>(value)) == &x, "assignment returns another object"); });
    }
    template <typename T>
    Out assign_value(V& x, T& value, bool, std::false_type)
    {
        return guarded([&] { x = std::move(value); });
    }

    bool op_reset_res(int, std::false_type) { return false; }
    bool op_reset_res(int t, std::true_type)
    {
        const int r = static_cast<int>(choose(3));
        note("%c.reset(resource %d)", 'a' + t, r);
        s[t]->reset(&res(r));
        m[t]     = Model{};
        m[t].res = r;
        return true;
    }

    /// What a destination or source without a value reports about itself is left open in some cases.
    void resync_flag(int i)
    {
        MC_CHECK(!s[i]->has_value(), "variant %c has a value although it was given none", 'a' + i);
        m[i].t = s[i]->valueless_by_exception() ? kLost : kEmpty;
    }
    void resync_res(int i, int r1, int r2) { resync_res(i, r1, r2, std::integral_constant<bool, P::pmr>{}); }
    void resync_res(int, int, int, std::false_type) {}
    void resync_res(int i, int r1, int r2, std::true_type)
    {
        const int r = res_id(s[i]->get_memory_resource());
        MC_CHECK(r == r1 || r == r2, "variant %c has resource %d after a failure", 'a' + i, r);
        m[i].res = r;
    }

    bool op_copy(int, int, std::false_type) { return false; }
    bool op_copy(int t, int f, std::true_type)
    {
        note("%c = %c", 'a' + t, 'a' + f);
        begin_op();
        const Out out = guarded([&] { MC_CHECK(&(*s[t] = static_cast<const V&>(*s[f])) == &*s[t], "assignment returns another object"); });
        copied(out, t, f);
        return true;
    }
    void copied(Out out, int t, int f)
    {
        if (out == Out::ok && !(faulted() && lost_quietly(*s[t])))
        {
            if (t == f)
                return;
            m[t] = m[f];
            if (m[f].t == kLost)
                resync_flag(t);
            return;
        }
        MC_CHECK(faulted(), "copying fails with %s without a reason", name(out));
        MC_CHECK(out != Out::other && out != Out::length, "copying fails with %s", name(out));
        const int old = m[t].res;
        if (m[f].t == kLost)
            resync_flag(t);
        else
            m[t].t = kLost;
        resync_res(t, old, m[f].res);
    }

    bool op_move(int, int, std::false_type) { return false; }
    bool op_move(int t, int f, std::true_type)
    {
        note("%c = move(%c)", 'a' + t, 'a' + f);
        begin_op();
        const Out out = guarded([&] { *s[t] = std::move(*s[f]); }, false);
        MC_CHECK(out == Out::ok, "moving fails with %s", name(out));
        moved(t, f);
        return true;
    }
    void moved(int t, int f)
    {
        if (t == f)
            return;
        m[t] = m[f];
        if (m[f].t == kLost)
        {
            resync_flag(t);
            resync_flag(f);
            return;
        }
        m[f].t = kEmpty;
        m[f].v = 0;
        // The statement says "without a value"; which flag an emptied source carries is not promised, a value is.
        resync_flag(f);
    }

    bool op_swap(int, int, std::false_type) { return false; }
    bool op_swap(int t, int f, std::true_type)
    {
        note("swap(%c, %c)", 'a' + t, 'a' + f);
        begin_op();
        const Model mt = m[t], mf = m[f];
        const Out   out = guarded([&] { s[t]->swap(*s[f]); }, !P::movable);
        if (out == Out::ok && !(faulted() && (lost_quietly(*s[t]) || lost_quietly(*s[f]))))
        {
            if (t == f)
                return true;
            std::swap(m[t], m[f]);
            for (int i : {t, f})
                if (m[i].t < 0)
                    resync_flag(i);
            return true;
        }
        MC_CHECK(faulted() && !P::movable, "swapping fails with %s without a reason", name(out));
        // Each variant holds one of the two former contents, or nothing.
        for (int i : {t, f})
        {
            resync_res(i, mt.res, mf.res);
            if (!s[i]->has_value())
            {
                resync_flag(i);
                continue;
            }
            bool found = false;
            for (const Model* c : {&mt, &mf})
                if (c->t >= 0 && holds(i, *c))
                {
                    m[i].t = c->t;
                    m[i].v = c->v;
                    found  = true;
                }
            MC_CHECK(found, "variant %c holds something that was never stored", 'a' + i);
        }
        return true;
    }
    bool holds(int i, const Model& c)
    {
        bool yes = false;
        with_type<P>(c.t, [&](auto tg) {
            using T = typename decltype(tg)::type;
            T* p    = cetl::get_if<T>(&*s[i]);
            yes     = p != nullptr && val(*p) == c.v;
        });
        return yes;
    }

    /// Destroys one variant and makes it anew from a value.
    bool op_recreate(int t)
    {
        const int r = P::pmr ? static_cast<int>(choose(2)) : 0;
        const int f = static_cast<int>(choose(5));
        s[t].kill();
        m[t].t              = kEmpty;
        const int           k     = f == 0 ? 0 : pick_type();
        const int           v     = f == 0 ? 0 : pick_val();
        const std::uint64_t ctors = tr().ctors;
        static const char* const forms[] = {"nothing", "in place", "a value", "make_unbounded_variant", "in place from a list"};
        note("new %c from %s, type %d, value %d, resource %d", 'a' + t, forms[f], k, v, r);
        begin_op();
        bool done = false;
        with_type<P>(k, [&](auto tg) { done = recreate(tg, t, r, f, k, v, ctors); });
        if (!done)
        {
            make_empty(t, r, std::integral_constant<bool, P::pmr>{});
            return false;
        }
        return true;
    }
    template <typename T>
    bool recreate(tag<T> tg, int t, int r, int f, int k, int v, std::uint64_t ctors)
    {
        constexpr std::integral_constant<bool, P::pmr>                       is_pmr{};
        constexpr std::integral_constant<bool, (P::copyable || P::movable)> transferable{};
        if (f == 0)
        {
            make_empty(t, r, is_pmr);
            return true;
        }
        Out out = Out::other;
        if (f == 1)
            out = guarded([&] { make_in_place(tg, t, r, v, is_pmr); });
        else if (f == 2)
        {
            if (!transferable)
                return false;
            out = make_value(tg, t, r, v, is_pmr, transferable);
        }
        else if (f == 3)
        {
            if (!transferable)
                return false;
            // faults are off for a move of the result, which some dialects make
            out = guarded([&] { make_made(tg, t, r, v, is_pmr, transferable); }, false);
        }
        else
        {
            if (!make_list(tg, t, r, v, out))
                return false;
        }
        if (out == Out::ok)
        {
            m[t].res = r;
            stored(out, t, k, v, ctors, f == 1 || f == 4);
            return true;
        }
        MC_CHECK(faulted(), "construction fails with %s without a reason", name(out));
        MC_CHECK(out != Out::other && out != Out::length, "construction fails with %s", name(out));
        check_lifetimes();  // nothing may be left behind by the failed constructor
        ArmFaults off(false);
        make_empty(t, r, is_pmr);
        return true;
    }
    template <typename T>
    void make_in_place(tag<T>, int t, int r, int v, std::true_type)
    {
        s[t].make(&res(r), typename V::template in_place_type_t<T>{}, v);
    }
    template <typename T>
    void make_in_place(tag<T>, int t, int, int v, std::false_type)
    {
        s[t].make(typename V::template in_place_type_t<T>{}, v);
    }
    template <typename T, typename B>
    Out make_value(tag<T>, int, int, int, B, std::false_type)
    {
        return Out::other;
    }
    template <typename T>
    Out make_value(tag<T>, int t, int r, int v, std::true_type, std::true_type)
    {
        ArmFaults off(false);
        T         x(v);
        return guarded([&] { s[t].make(&res(r), std::move(x)); });
    }
    template <typename T>
    Out make_value(tag<T>, int t, int, int v, std::false_type, std::true_type)
    {
        ArmFaults off(false);
        T         x(v);
        return guarded([&] { s[t].make(std::move(x)); });
    }
    template <typename T, typename B>
    void make_made(tag<T>, int, int, int, B, std::false_type)
    {
    }
    template <typename T>
    void make_made(tag<T>, int t, int r, int v, std::true_type, std::true_type)
    {
        s[t].make(cetl::make_unbounded_variant<T, V>(&res(r), v));
    }
    template <typename T>
    void make_made(tag<T>, int t, int, int v, std::false_type, std::true_type)
    {
        s[t].make(cetl::make_unbounded_variant<T, V>(v));
    }
    template <typename T>
    bool make_list(tag<T>, int, int, int, Out&)
    {
        return false;
    }
    template <typename E>
    bool make_list(tag<Derived<E>> tg, int t, int r, int v, Out& out)
    {
        std::initializer_list<int> l = {v - 2, 1};
        out                          = guarded([&] { make_list_form(tg, t, r, l, std::integral_constant<bool, P::pmr>{}); });
        return true;
    }
    template <typename T>
    void make_list_form(tag<T>, int t, int r, std::initializer_list<int> l, std::true_type)
    {
        s[t].make(&res(r), typename V::template in_place_type_t<T>{}, l, 1);
    }
    template <typename T>
    void make_list_form(tag<T>, int t, int, std::initializer_list<int> l, std::false_type)
    {
        s[t].make(typename V::template in_place_type_t<T>{}, l, 1);
    }

    bool op_construct_from(int t, int o)
    {
        const int form = static_cast<int>(choose(2));
        if (form == 0 ? !P::copyable : !P::movable)
            return false;
        s[t].kill();
        m[t].t = kEmpty;
        note("new %c from %s%c", 'a' + t, form ? "moved " : "", 'a' + o);
        begin_op();
        const std::uint64_t ctors = tr().ctors;
        const Out           out   = form == 0 ? copy_construct(t, o, std::integral_constant<bool, P::copyable>{})
                                              : move_construct(t, o, std::integral_constant<bool, P::movable>{});
        if (out != Out::ok)
        {
            MC_CHECK(faulted(), "construction fails with %s without a reason", name(out));
            MC_CHECK(out != Out::other && out != Out::length, "construction fails with %s", name(out));
            check_lifetimes();
            ArmFaults off(false);
            make_empty(t, 0, std::integral_constant<bool, P::pmr>{});
            return true;
        }
        if (form == 0)
        {
            if (!faulted() && m[o].t > 0)
                MC_CHECK(tr().ctors - ctors == 1, "%llu constructions for one copy", static_cast<unsigned long long>(tr().ctors - ctors));
            copied(out, t, o);
        }
        else
            moved(t, o);
        return true;
    }
    Out copy_construct(int, int, std::false_type) { return Out::other; }
    Out copy_construct(int t, int o, std::true_type)
    {
        return guarded([&] { s[t].make(static_cast<const V&>(*s[o])); });
    }
    Out move_construct(int, int, std::false_type) { return Out::other; }
    Out move_construct(int t, int o, std::true_type)
    {
        return guarded([&] { s[t].make(std::move(*s[o])); }, false);
    }

    /// Writes through the pointer, or moves the value out and puts another one in.
    bool op_peek(int, std::false_type) { return false; }
    bool op_peek(int t, std::true_type)
    {
        if (m[t].t < 0)
            return false;
        const int v    = pick_val();
        const int form = static_cast<int>(choose(2));
        note("%s stored value of %c, then write %d through get_if", form ? "move out the" : "keep the", 'a' + t, v);
        with_type<P>(m[t].t, [&](auto tg) {
            using T = typename decltype(tg)::type;
            if (form)
            {
                T out(cetl::get<T>(std::move(*s[t])));
                MC_CHECK(val(out) == m[t].v, "moving the value out of %c yields %d, expected %d", 'a' + t, val(out), m[t].v);
            }
            write(*cetl::get_if<T>(&*s[t]), v);
        });
        m[t].v = v;
        return true;
    }
    static void write(int& x, int v) { x = v; }
    template <typename T>
    static void write(T& x, int v)
    {
        x.v = v;
    }
    template <typename E>
    static void write(Derived<E>& x, int v)
    {
        x.e.v = v;
    }

    /// The variant is assigned the value it holds.
    bool op_alias(int, std::false_type) { return false; }
    bool op_alias(int t, std::true_type)
    {
        if (m[t].t < 0)
            return false;
        const int  k  = m[t].t;
        const bool rv = !P::copyable || choose(2) == 1;
        note("%c = %s value stored in %c", 'a' + t, rv ? "moved" : "the", 'a' + t);
        begin_op();
        const Model old = m[t];
        with_type<P>(k, [&](auto tg) {
            using T       = typename decltype(tg)::type;
            const Out out = assign_value(*s[t], *cetl::get_if<T>(&*s[t]), rv, std::integral_constant<bool, P::copyable>{});
            if (out != Out::ok && s[t]->has_value())
            {
                // failed before the old value was given up
                MC_CHECK(faulted(), "storing fails with %s without a reason", name(out));
                MC_CHECK(rv || holds(t, old), "a failed assignment changed the value");
                T* p = cetl::get_if<T>(&*s[t]);
                MC_CHECK(p != nullptr, "a failed assignment changed the type");
                m[t].v = val(*p);
                return;
            }
            stored(out, t, k, old.v, 0, false);
        });
        return true;
    }
    /// A value stored in one variant is assigned to the other.
    bool op_self_emplace(int, std::false_type) { return false; }
    bool op_self_emplace(int t, std::true_type)
    {
        const int o = 1 - t;
        if (m[o].t < 0)
            return false;
        note("%c = value stored in %c", 'a' + t, 'a' + o);
        begin_op();
        with_type<P>(m[o].t, [&](auto tg) {
            using T       = typename decltype(tg)::type;
            const Out out = assign_value(*s[t], *cetl::get_if<T>(&*s[o]), false, std::integral_constant<bool, P::copyable>{});
            stored(out, t, m[o].t, m[o].v, 0, false);
        });
        return true;
    }

    Cfg     cfg;
    Slot<V> s[2];
    Model   m[2];
    int     used0 = 0;
};

template <typename P>
inline void run_world(const Cfg& cfg)
{
    World<P>  w(cfg);
    const int depth = ex().depth;
    for (int d = 0;; d++)
    {
        const Key k = w.key();
        if (unseen(k))
            w.check_all();
        if (!boundary(k, depth - d) || d == depth)
            return;
        if (!w.step())
            return;
        transition();
        w.check_lifetimes();
    }
}
}  // namespace uv
#endif
