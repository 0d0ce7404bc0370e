// Histories over two variants (C22, C23).
#ifndef VAR_HPP
#define VAR_HPP

#include "opt.hpp"

#include <cetl/pf17/variant.hpp>

#include <tuple>

namespace mc
{
namespace var
{
using cetl::pf17::get;
using cetl::pf17::get_if;
using cetl::pf17::holds_alternative;
using cetl::pf17::in_place_index;
using cetl::pf17::in_place_index_t;
using cetl::pf17::in_place_type_t;
using cetl::pf17::monostate;
using cetl::pf17::variant;
using cetl::pf17::variant_npos;
using cetl::pf17::visit;
using opt::bool_;
using opt::Fixed;
using opt::list_constructible;
using opt::V;
using opt::VS;
using opt::when;

/// Has an operator new of its own, which does not concern objects placed elsewhere.
struct OwnNew : Elem<kCopy | kSelf, 9>
{
    using Elem::Elem;
    static void* operator new(std::size_t) { fail("operator new of the value type was called"); }
    static void  operator delete(void*) {}
};
/// Can be made of a list only.
struct ListOnly : Elem<kCopy | kSelf, 10>
{
    ListOnly(std::initializer_list<int> il, int x) : Elem(static_cast<int>(il.size()) + x) {}
};
template <typename T>
inline int held(const T& t)
{
    return t.get();
}
inline int held(const int& t) { return t; }
inline int held(const short& t) { return t; }
inline int held(const char& t) { return t; }
inline int held(const monostate&) { return 0; }

template <typename T>
struct moves : bool_<!std::is_trivially_move_constructible<T>::value>  // moving from a value changes it
{};
template <unsigned P, int Tag>
struct moves<CopyOnly<P, Tag>> : std::false_type
{};
template <>
struct moves<Fixed> : std::false_type
{};

struct Model
{
    int idx = -1;
    int v   = 0;
};
template <typename F>
inline void at(std::size_t, F&&, std::index_sequence<>)
{}
template <typename F, std::size_t I, std::size_t... Is>
inline void at(std::size_t i, F&& f, std::index_sequence<I, Is...>)
{
    if (i == I)
        f(std::integral_constant<std::size_t, I>{});
    else
        at(i, f, std::index_sequence<Is...>{});
}
template <typename T, typename... Ts>
struct count;
template <typename T>
struct count<T> : std::integral_constant<int, 0>
{};
template <typename T, typename U, typename... Ts>
struct count<T, U, Ts...> : std::integral_constant<int, (std::is_same<T, U>::value ? 1 : 0) + count<T, Ts...>::value>
{};
template <template <typename> class P, typename... Ts>
struct all;
template <template <typename> class P>
struct all<P> : std::true_type
{};
template <template <typename> class P, typename T, typename... Ts>
struct all<P, T, Ts...> : bool_<P<T>::value && all<P, Ts...>::value>
{};

/// T, or something harmless in its place if it cannot be made from an int.
template <typename T>
using value_t = std::conditional_t<std::is_constructible<T, int>::value && std::is_move_constructible<T>::value, std::remove_cv_t<T>, int>;

/// From: a type that can be converted to exactly one of the alternatives, of which the index is FromIndex.
template <typename From, std::size_t FromIndex, typename... Ts>
class World
{
    using X  = variant<Ts...>;
    using Is = std::index_sequence_for<Ts...>;
    template <std::size_t I>
    using A = std::tuple_element_t<I, std::tuple<Ts...>>;
    template <std::size_t I>
    using unique = bool_<count<A<I>, Ts...>::value == 1>;
    static constexpr std::size_t N  = sizeof...(Ts);
    static constexpr bool        cc = all<std::is_copy_constructible, Ts...>::value;
    static constexpr bool        mc = all<std::is_move_constructible, Ts...>::value;
    static constexpr bool        ca = cc && all<std::is_copy_assignable, Ts...>::value;
    static constexpr bool        ma = mc && all<std::is_move_assignable, Ts...>::value;

public:
    World()
    {
        for (int i = 0; i < 2; i++)
            fresh(i);
    }
    Key key()
    {
        StateHash h;
        for (auto& x : m)
        {
            h.h.u64(static_cast<std::uint64_t>(x.idx + 1));
            h.h.u64(static_cast<std::uint64_t>(x.v));
        }
        h.h.u64(static_cast<std::uint64_t>(ex().faults_left));
        return h.finish();
    }
    void check_all()
    {
        for (int i = 0; i < 2; i++)
            check_one(*s[i], m[i], static_cast<char>('a' + i));
        MC_CHECK(get_if<0>(static_cast<X*>(nullptr)) == nullptr, "get_if of a null pointer");
    }
    void check_lifetimes()
    {
        std::size_t e = 0;
        for (auto& x : m)
            if (x.idx >= 0)
                at(static_cast<std::size_t>(x.idx), [&](auto i) { e += std::is_trivially_destructible<A<i.value>>::value ? 0U : 1U; }, Is{});
        MC_CHECK(live_objects() == e, "%zu values alive, %zu expected", live_objects(), e);
    }
    bool step()
    {
        const int t = static_cast<int>(choose(2)), o = 1 - t;
        switch (choose(9))
        {
        case 0: return op_assign_value(t);
        case 1: return op_emplace(t);
        case 2: return op_copy(t, choose(2) ? t : o);
        case 3: return op_move(t, choose(2) ? t : o);
        case 4: return t == 0 && op_swap(0, static_cast<int>(choose(2)));
        case 5: return op_recreate(t, o);
        case 6: return op_convert_assign(t);
        case 7: return op_write(t);
        default: return op_take(t);
        }
    }

private:
    template <typename F>
    static bool throws_bad_access(F&& f)
    {
#if defined(__cpp_exceptions)
        try
        {
            f();
        } catch (const cetl::pf17::bad_variant_access& e)
        {
            const std::exception& base = e;
            return base.what() != nullptr;
        }
        return false;
#else
        return expect_abort(f);
#endif
    }
    template <typename T>
    static void sink(T&&)
    {}
    struct Look
    {
        const void** where;
        int*         calls;
        template <typename T>
        int operator()(T& t) const
        {
            *where = &reinterpret_cast<const volatile char&>(t) ? const_cast<const char*>(&reinterpret_cast<const volatile char&>(t)) : nullptr;
            ++*calls;
            return 100 + held(t);
        }
    };
    template <std::size_t I>
    static void check_access(X& x, const Model& e, char nm)
    {
        const X&   cx = x;
        const bool on = e.idx == static_cast<int>(I);
        A<I>*      p  = get_if<I>(&x);
        MC_CHECK((p != nullptr) == on, "get_if<%zu> of %c gives %s", I, nm, p ? "a value" : "null");
        MC_CHECK(get_if<I>(&cx) == p, "get_if of the const %c", nm);
        static_assert(std::is_same<decltype(get_if<I>(&cx)), const A<I>*>::value, "");
        static_assert(std::is_same<decltype(get<I>(x)), A<I>&>::value, "");
        static_assert(std::is_same<decltype(get<I>(cx)), const A<I>&>::value, "");
        static_assert(std::is_same<decltype(get<I>(std::move(x))), A<I>&&>::value, "");
        static_assert(std::is_same<decltype(get<I>(std::move(cx))), const A<I>&&>::value, "");
        if (on)
        {
            MC_CHECK(held(*p) == e.v, "%c holds %d, %d expected", nm, held(*p), e.v);
            MC_CHECK(reinterpret_cast<char*>(const_cast<std::remove_cv_t<A<I>>*>(p)) >= reinterpret_cast<char*>(&x) &&
                         reinterpret_cast<char*>(const_cast<std::remove_cv_t<A<I>>*>(p + 1)) <= reinterpret_cast<char*>(&x + 1),
                     "the value of %c is elsewhere", nm);
            MC_CHECK(std::addressof(get<I>(x)) == p && std::addressof(get<I>(cx)) == p, "get<%zu> of %c", I, nm);
            auto&& r = get<I>(std::move(x));
            auto&& c = get<I>(std::move(cx));
            MC_CHECK(std::addressof(r) == p && std::addressof(c) == p, "get<%zu> of the moved %c", I, nm);
        }
        else
        {
            MC_CHECK(throws_bad_access([&] { sink(get<I>(x)); }), "get<%zu> of %c succeeds", I, nm);
            MC_CHECK(throws_bad_access([&] { sink(get<I>(cx)); }), "get<%zu> of const %c succeeds", I, nm);
            MC_CHECK(throws_bad_access([&] { sink(get<I>(std::move(x))); }), "get<%zu> of moved %c succeeds", I, nm);
            MC_CHECK(throws_bad_access([&] { sink(get<I>(std::move(cx))); }), "get<%zu> of moved const %c succeeds", I, nm);
        }
        when(unique<I>{}, [&](auto& y) {
            using T     = std::conditional_t<sizeof(y) != 0, A<I>, void>;
            const X& cy = y;
            MC_CHECK(holds_alternative<T>(cy) == on, "holds_alternative<%zu> of %c", I, nm);
            MC_CHECK(get_if<T>(&y) == p && get_if<T>(&cy) == p, "get_if by type of %c", nm);
            if (on)
            {
                MC_CHECK(std::addressof(get<T>(y)) == p && std::addressof(get<T>(cy)) == p, "get by type of %c", nm);
                auto&& r = get<T>(std::move(y));
                auto&& c = get<T>(std::move(cy));
                MC_CHECK(std::addressof(r) == p && std::addressof(c) == p, "get by type of the moved %c", nm);
            }
            else
            {
                MC_CHECK(throws_bad_access([&] { sink(get<T>(y)); }), "get by type of %c succeeds", nm);
                MC_CHECK(throws_bad_access([&] { sink(get<T>(cy)); }), "get by type of const %c succeeds", nm);
                MC_CHECK(throws_bad_access([&] { sink(get<T>(std::move(y))); }), "get by type of moved %c succeeds", nm);
            }
        }, x);
    }
    static void check_one(X& x, const Model& e, char nm)
    {
        const X& cx = x;
        MC_CHECK(cx.valueless_by_exception() == (e.idx < 0), "valueless_by_exception of %c is %d", nm, cx.valueless_by_exception());
        MC_CHECK(cx.index() == (e.idx < 0 ? variant_npos : static_cast<std::size_t>(e.idx)), "index of %c is %zu, %d expected", nm, cx.index(), e.idx);
        for (std::size_t i = 0; i < N; i++)
            at(i, [&](auto k) { World::check_access<decltype(k)::value>(x, e, nm); }, Is{});
        const void* where = nullptr;
        int         calls = 0, got = 0;
        const Look  look{&where, &calls};
        if (e.idx < 0)
        {
            MC_CHECK(throws_bad_access([&] { visit(look, x); }), "visiting %c without a value succeeds", nm);
            MC_CHECK(throws_bad_access([&] { visit(look, cx); }), "visiting const %c without a value succeeds", nm);
            MC_CHECK(calls == 0, "the visitor was called although there is no value");
            return;
        }
        got = visit(look, x);
        MC_CHECK(calls == 1 && got == 100 + e.v, "visiting %c gives %d", nm, got);
        got = visit(look, cx);
        MC_CHECK(calls == 2 && got == 100 + e.v, "visiting const %c gives %d", nm, got);
    }
    void begin()
    {
        c0 = tr().ctors;
        d0 = tr().dtors;
    }
    static bool ended(Out out)
    {
        MC_CHECK(out == Out::ok || out == Out::injected, "the operation ends with %s", name(out));
        return out == Out::ok;
    }
    /// Assignment to an equal alternative neither constructs nor destroys.
    void check_assigned(bool equal)
    {
        if (equal)
            MC_CHECK(tr().ctors == c0 && tr().dtors == d0, "assignment of an equal alternative replaces it");
    }
    void fresh(int t)
    {
        when_constructible<A<0>>([&](auto arg) { s[t].make(in_place_index_t<0>{}, arg); }, [&] { s[t].make(in_place_index_t<0>{}); });
        m[t] = Model{0, std::is_constructible<A<0>, int>::value ? 1 : 0};
    }
    template <typename T, typename F, typename G>
    static void when_constructible(F&& f, G&& g)
    {
        pick_arg(std::is_constructible<T, int>{}, f, g);
    }
    template <typename F, typename G>
    static void pick_arg(std::true_type, F& f, G&)
    {
        f(1);
    }
    template <typename F, typename G>
    static void pick_arg(std::false_type, F&, G& g)
    {
        g();
    }
    /// The outcome of a failure to put a new value of alternative T, made from a U, in place of another alternative.
    template <typename T, typename U>
    void lost(int t)
    {
        if (std::is_nothrow_constructible<T, U>::value || !std::is_nothrow_move_constructible<T>::value)
            m[t] = Model{};
    }
    static int pick() { return 1 + static_cast<int>(choose(2)); }

    bool op_assign_value(int t)
    {
        const std::size_t i    = choose(N);
        const unsigned    form = choose(3);
        const int         v    = pick();
        bool              ok   = false;
        at(i, [&](auto k) {
            constexpr std::size_t I  = decltype(k)::value;
            using T                  = A<I>;
            using R                  = value_t<T>;
            constexpr bool copyable  = unique<I>::value && std::is_copy_constructible<T>::value && std::is_copy_assignable<T>::value && std::is_constructible<T, int>::value;
            constexpr bool moveable  = unique<I>::value && std::is_move_constructible<T>::value && std::is_move_assignable<T>::value && std::is_constructible<T, int>::value;
            Out            out       = Out::other;
            const bool     equal     = m[t].idx == static_cast<int>(I);
            if (form < 2)
            {
                ok = when(bool_<copyable>{}, [&](auto& x) {
                    R        val(static_cast<R>(v));
                    const R& cval = val;
                    note("%c = %s value %d of alternative %zu", 'a' + t, form ? "non-const" : "const", v, I);
                    begin();
                    out = form ? guarded([&] { MC_CHECK(&(x = val) == &x, "assignment returns another object"); })
                               : guarded([&] { MC_CHECK(&(x = cval) == &x, "assignment returns another object"); });
                    if (ended(out))
                        check_assigned(equal);
                    MC_CHECK(held(val) == v, "assignment changes the value it copies");
                }, *s[t]);
                if (ok && out == Out::ok)
                    m[t] = Model{static_cast<int>(I), v};
                else if (ok && !equal)
                    this->template lost<T, std::conditional_t<true, const R&, void>>(t);
                return;
            }
            ok = when(bool_<moveable>{}, [&](auto& x) {
                R val(static_cast<R>(v));
                note("%c = moved value %d of alternative %zu", 'a' + t, v, I);
                begin();
                out = guarded([&] { MC_CHECK(&(x = std::move(val)) == &x, "assignment returns another object"); });
                if (ended(out))
                    check_assigned(equal);
                MC_CHECK(held(val) == (out == Out::ok && moves<T>::value ? kMovedFrom : v), "the source holds %d after being moved", held(val));
            }, *s[t]);
            if (ok && out == Out::ok)
                m[t] = Model{static_cast<int>(I), v};
            else if (ok && !equal)
                this->template lost<T, R&&>(t);
        }, Is{});
        return ok;
    }
    bool op_emplace(int t)
    {
        const std::size_t i    = choose(N);
        const unsigned    form = choose(7);
        const int         v    = pick();
        bool              ok   = false;
        int               e    = v;
        Out               out  = Out::other;
        const void*       r    = nullptr;
        at(i, [&](auto k) {
            constexpr std::size_t I   = decltype(k)::value;
            using T                   = A<I>;
            constexpr bool        one = std::is_constructible<T, int>::value, two = std::is_constructible<T, int, int>::value,
                           list = list_constructible<T>::value, none = std::is_default_constructible<T>::value;
            switch (form)
            {
            case 0:
                ok = when(bool_<one>{}, [&](auto& x) {
                    note("%c.emplace<%zu>(%d)", 'a' + t, I, v);
                    out = guarded([&] { r = address(x.template emplace<I>(v)); });
                }, *s[t]);
                break;
            case 1:
                ok = when(bool_<one && unique<I>::value>{}, [&](auto& x) {
                    note("%c.emplace<T%zu>(%d)", 'a' + t, I, v);
                    out = guarded([&] { r = address(x.template emplace<T>(v)); });
                }, *s[t]);
                break;
            case 2:
                e  = v + 1;
                ok = when(bool_<two>{}, [&](auto& x) {
                    note("%c.emplace<%zu>(%d, 1)", 'a' + t, I, v);
                    out = guarded([&] { r = address(x.template emplace<I>(v, 1)); });
                }, *s[t]);
                break;
            case 3:
                e  = v + 2;
                ok = when(bool_<list>{}, [&](auto& x) {
                    note("%c.emplace<%zu>({1, 1}, %d)", 'a' + t, I, v);
                    out = guarded([&] { r = address(x.template emplace<I>({1, 1}, v)); });
                }, *s[t]);
                break;
            case 4:
                e  = v + 2;
                ok = when(bool_<list && unique<I>::value>{}, [&](auto& x) {
                    note("%c.emplace<T%zu>({1, 1}, %d)", 'a' + t, I, v);
                    out = guarded([&] { r = address(x.template emplace<T>({1, 1}, v)); });
                }, *s[t]);
                break;
            case 5:
                e  = 0;
                ok = v == 1 && when(bool_<none>{}, [&](auto& x) {
                    note("%c.emplace<%zu>()", 'a' + t, I);
                    out = guarded([&] { r = address(x.template emplace<I>()); });
                }, *s[t]);
                break;
            default:
                ok = when(bool_<std::is_move_constructible<T>::value && one>{}, [&](auto& x) {
                    value_t<T> val(static_cast<value_t<T>>(v));
                    note("%c.emplace<%zu>(moved value %d)", 'a' + t, I, v);
                    out = guarded([&] { r = address(x.template emplace<I>(std::move(val))); });
                }, *s[t]);
            }
            if (ok && ended(out))
            {
                MC_CHECK(r == address(*get_if<I>(&*s[t])), "emplace returns another object");
                m[t] = Model{static_cast<int>(I), e};
            }
            else if (ok)
                m[t] = Model{};
        }, Is{});
        return ok;
    }
    template <typename T>
    static const void* address(const T& t)
    {
        return std::addressof(t);
    }
    bool op_copy(int t, int f)
    {
        Out        out   = Out::other;
        const bool equal = m[t].idx == m[f].idx;
        if (!when(bool_<ca>{}, [&](auto& x) {
                const X& src = *s[f];
                note("%c = copy(%c)", 'a' + t, 'a' + f);
                begin();
                out = guarded([&] { MC_CHECK(&(x = src) == &x, "assignment returns another object"); });
            }, *s[t]))
            return false;
        if (ended(out))
        {
            check_assigned(equal);
            m[t] = m[f];
        }
        else if (!equal)
            at(static_cast<std::size_t>(m[f].idx), [&](auto k) { this->template lost<A<decltype(k)::value>, const A<decltype(k)::value>&>(t); }, Is{});
        return true;
    }
    bool op_move(int t, int f)
    {
        Out        out   = Out::other;
        const bool equal = m[t].idx == m[f].idx;
        if (!when(bool_<ma>{}, [&](auto& x) {
                X& src = *s[f];
                note("%c = move(%c)", 'a' + t, 'a' + f);
                begin();
                out = guarded([&] { MC_CHECK(&(x = std::move(src)) == &x, "assignment returns another object"); });
            }, *s[t]))
            return false;
        if (ended(out))
        {
            check_assigned(equal);
            m[t] = m[f];
            if (t != f)
                moved(f);
        }
        else if (!equal)
            m[t] = Model{};
        return true;
    }
    void moved(int f)
    {
        if (m[f].idx >= 0)
            at(static_cast<std::size_t>(m[f].idx), [&](auto k) {
                if (moves<A<decltype(k)::value>>::value)
                    m[f].v = kMovedFrom;
            }, Is{});
    }
    void read_back(int i)
    {
        m[i].idx = s[i]->valueless_by_exception() ? -1 : static_cast<int>(s[i]->index());
        m[i].v   = 0;
        if (m[i].idx >= 0)
            at(static_cast<std::size_t>(m[i].idx), [&](auto k) { m[i].v = held(*get_if<decltype(k)::value>(&*s[i])); }, Is{});
    }
    template <typename Base, unsigned P>
    static void check_swap(int n0, V<Base, P>*)
    {
        MC_CHECK(opt::swaps() == n0 + 1, "the swap function of the alternative was called %d times", opt::swaps() - n0);
    }
    static void check_swap(int, ...) {}
    bool op_swap(int t, int f)
    {
        const bool member = choose(2) == 1;
        Out        out    = Out::other;
        const int  n0     = opt::swaps();
        if (!when(bool_<ma>{}, [&](auto& x) {
                note("%s of %c and %c", member ? "member swap" : "swap", 'a' + t, 'a' + f);
                begin();
                out = guarded([&] {
                    using std::swap;
                    if (member)
                        x.swap(*s[f]);
                    else
                        swap(x, *s[f]);
                });
            }, *s[t]))
            return false;
        const Model a = m[t], b = m[f];
        if (ended(out))
        {
            if (t != f)
            {
                if (member && a.idx == b.idx && a.idx >= 0)
                    at(static_cast<std::size_t>(a.idx), [&](auto k) { check_swap(n0, static_cast<std::remove_cv_t<A<decltype(k)::value>>*>(nullptr)); }, Is{});
                std::swap(m[t], m[f]);
            }
            else if (m[t].idx >= 0)
            {
                const int idx = m[t].idx;
                read_back(t);
                MC_CHECK(m[t].idx == idx, "a swap with itself changes the alternative");
            }
            return true;
        }
        for (int i : {t, f})
        {
            read_back(i);
            MC_CHECK(m[i].idx == -1 || m[i].idx == a.idx || m[i].idx == b.idx, "alternative %d after a failed swap", m[i].idx);
            MC_CHECK(m[i].idx == -1 || m[i].v == kMovedFrom || (m[i].idx == a.idx && m[i].v == a.v) || (m[i].idx == b.idx && m[i].v == b.v), "value %d after a failed swap", m[i].v);
        }
        if (a.idx == b.idx)
            MC_CHECK(m[t].idx == a.idx && m[f].idx == a.idx, "a failed swap of equal alternatives loses one");
        return true;
    }
    bool op_recreate(int t, int o)
    {
        const unsigned    f   = choose(10);
        const std::size_t i   = f == 0 || f >= 7 ? (f == 9 ? FromIndex : 0) : choose(N);
        const int         v   = f == 0 || f == 7 || f == 8 ? 1 : pick();
        Model             e   = Model{static_cast<int>(i), v};
        Out               out = Out::other;
        bool              ok  = false;
        auto&             z   = s[t];
        auto              prepare = [&](const char* how) {
            note("new %c: %s, alternative %zu, %d", 'a' + t, how, i, v);
            z.kill();
            begin();
        };
        at(i, [&](auto k) {
            constexpr std::size_t I   = decltype(k)::value;
            using T                   = A<I>;
            using R                   = value_t<T>;
            constexpr bool        one = std::is_constructible<T, int>::value, list = list_constructible<T>::value;
            switch (f)
            {
            case 0:
                e.v = 0;
                ok  = when(bool_<std::is_default_constructible<A<0>>::value>{}, [&](auto& y) {
                    prepare("default");
                    out = guarded([&] { y.make(); });
                }, z);
                break;
            case 1:
                ok = when(bool_<one>{}, [&](auto& y) {
                    prepare("by index");
                    out = guarded([&] { y.make(in_place_index_t<I>{}, v); });
                }, z);
                break;
            case 2:
                ok = when(bool_<one && unique<I>::value>{}, [&](auto& y) {
                    prepare("by type");
                    out = guarded([&] { y.make(in_place_type_t<T>{}, v); });
                }, z);
                break;
            case 3:
                e.v = v + 2;
                ok  = when(bool_<list>{}, [&](auto& y) {
                    prepare("by index with a list");
                    const std::initializer_list<int> il{1, 1};
                    out = guarded([&] { y.make(in_place_index_t<I>{}, il, v); });
                }, z);
                break;
            case 4:
                e.v = v + 2;
                ok  = when(bool_<list && unique<I>::value>{}, [&](auto& y) {
                    prepare("by type with a list");
                    const std::initializer_list<int> il{1, 1};
                    out = guarded([&] { y.make(in_place_type_t<T>{}, il, v); });
                }, z);
                break;
            case 5:
                ok = when(bool_<one && unique<I>::value && std::is_copy_constructible<T>::value>{}, [&](auto& y) {
                    const R val(static_cast<R>(v));
                    prepare("from const value");
                    out = guarded([&] { y.make(val); });
                    MC_CHECK(held(val) == v, "construction changes the value it copies");
                }, z);
                break;
            case 6:
                ok = when(bool_<one && unique<I>::value && std::is_move_constructible<T>::value>{}, [&](auto& y) {
                    R val(static_cast<R>(v));
                    prepare("from moved value");
                    out = guarded([&] { y.make(std::move(val)); });
                    MC_CHECK(held(val) == (out == Out::ok && moves<T>::value ? kMovedFrom : v), "the source holds %d after being moved", held(val));
                }, z);
                break;
            case 7:
                e  = m[o];
                ok = when(bool_<cc>{}, [&](auto& y) {
                    prepare("copy of the other");
                    out = guarded([&] { y.make(static_cast<const X&>(*s[o])); });
                }, z);
                break;
            case 8:
                e  = m[o];
                ok = when(bool_<mc>{}, [&](auto& y) {
                    prepare("moved from the other");
                    out = guarded([&] { y.make(std::move(*s[o])); });
                }, z);
                if (ok && out == Out::ok)
                    moved(o);
                break;
            default:
                ok = when(bool_<!std::is_void<From>::value>{}, [&](auto& y) {
                    using F = std::conditional_t<sizeof(y) != 0, From, void>;
                    F val(v);
                    prepare("converted");
                    out = choose(2) ? guarded([&] { y.make(val); }) : guarded([&] { y.make(std::move(val)); });
                }, z);
            }
        }, Is{});
        if (!ok)
            return false;
        if (ended(out))
        {
            m[t] = e;
            return true;
        }
        m[t] = Model{};
        check_lifetimes();
        fresh(t);
        return true;
    }
    bool op_convert_assign(int t)
    {
        const int  v     = pick();
        const bool rv    = choose(2) == 1;
        Out        out   = Out::other;
        const bool equal = m[t].idx == static_cast<int>(FromIndex);
        if (!when(bool_<!std::is_void<From>::value>{}, [&](auto& x) {
                using F = std::conditional_t<sizeof(x) != 0, From, void>;
                F val(v);
                note("%c = %s(From(%d))", 'a' + t, rv ? "move" : "copy", v);
                begin();
                out = rv ? guarded([&] { MC_CHECK(&(x = std::move(val)) == &x, "assignment returns another object"); })
                         : guarded([&] { MC_CHECK(&(x = static_cast<const F&>(val)) == &x, "assignment returns another object"); });
                if (ended(out))
                    check_assigned(equal);
                else if (!equal && rv)
                    this->template lost<A<FromIndex>, F&&>(t);
                else if (!equal)
                    this->template lost<A<FromIndex>, const F&>(t);
            }, *s[t]))
            return false;
        if (out == Out::ok)
            m[t] = Model{static_cast<int>(FromIndex), v};
        return true;
    }
    struct Write
    {
        int  v;
        bool done;
        template <typename T, std::enable_if_t<std::is_move_assignable<T>::value && std::is_constructible<T, int>::value, int> = 0>
        bool operator()(T& t) const
        {
            t = T(static_cast<T>(v));
            return true;
        }
        template <typename T, std::enable_if_t<!(std::is_move_assignable<T>::value && std::is_constructible<T, int>::value), int> = 0>
        bool operator()(T&) const
        {
            return false;
        }
    };
    bool op_write(int t)
    {
        if (m[t].idx < 0)
            return false;
        const int      v = pick();
        const unsigned f = choose(3);
        bool           ok = false;
        note("write %d through %c", v, 'a' + t);
        const Write w{v, false};
        if (f == 0)
            ok = visit(w, *s[t]);
        else
            at(static_cast<std::size_t>(m[t].idx), [&](auto k) {
                constexpr std::size_t I = decltype(k)::value;
                ok                      = f == 1 ? w(get<I>(*s[t])) : w(*get_if<I>(&*s[t]));
            }, Is{});
        if (ok)
            m[t].v = v;
        return ok;
    }
    bool op_take(int t)
    {
        if (m[t].idx < 0)
            return false;
        const bool inside = choose(2) == 1;
        bool       ok     = false;
        Out        out    = Out::other;
        int        got    = -1;
        at(static_cast<std::size_t>(m[t].idx), [&](auto k) {
            constexpr std::size_t I = decltype(k)::value;
            using T                 = A<I>;
            ok = when(bool_<std::is_move_constructible<T>::value>{}, [&](auto& x) {
                using Y = std::conditional_t<std::is_move_constructible<T>::value, T, value_t<T>>;
                note("take the value of %c", 'a' + t);
                out = inside ? guarded([&] {
                    Y y(std::move(get<I>(x)));
                    got = held(y);
                })
                             : guarded([&] {
                    Y y(get<I>(std::move(x)));
                    got = held(y);
                });
            }, *s[t]);
        }, Is{});
        if (!ok)
            return false;
        if (ended(out))
        {
            MC_CHECK(got == m[t].v, "took %d, %d expected", got, m[t].v);
            moved(t);
        }
        return true;
    }

    Slot<X>       s[2];
    Model         m[2];
    std::uint64_t c0 = 0, d0 = 0;
};

template <typename W>
inline void scenario()
{
    W         w;
    const int depth = ex().depth;
    for (int d = 0; d <= depth; d++)
    {
        const Key k = w.key();
        if (unseen(k))
            w.check_all();
        if (!boundary(k, depth - d) || d == depth)
            return;
        if (!w.step())
            return;
        transition();
        w.check_lifetimes();
    }
}
}  // namespace var
}  // namespace mc
#endif
