// Histories over two optionals and a third one of a convertible type (C19, C20).
#ifndef OPT_HPP
#define OPT_HPP

#include "../resource.hpp"

#include <cetl/pf17/optional.hpp>

#include <initializer_list>
#include <new>

namespace mc
{
namespace opt
{
using cetl::pf17::in_place;
using cetl::pf17::nullopt;
using cetl::pf17::optional;

/// What the third optional holds.
template <unsigned P>
using W = Elem<kCopy | P, 5>;

inline int& swaps()
{
    static int n = 0;
    return n;
}
/// A value that can be made from and assigned from W and from lists, with a swap of its own.
template <typename Base, unsigned P = 0>
struct V : Base
{
    using Base::Base;
    V() = default;
    V(std::initializer_list<int> il, int x = 0) noexcept(!(P & kThrowDef)) : Base(static_cast<int>(il.size()) + x) {}
    V(const W<P>& w) noexcept(!(P & kThrowDef)) : Base(w.get()) {}
    V(W<P>&& w) noexcept(!(P & kThrowDef)) : Base(w.get()) { w.v = kMovedFrom; }
    V& operator=(const W<P>& w) noexcept(!(P & kThrowAsgn))
    {
        const int x = w.get();
        (void) this->get();
        MC_MAYBE_THROW((P & kThrowAsgn) != 0, "converting assignment");
        this->v = x;
        return *this;
    }
    V& operator=(W<P>&& w) noexcept(!(P & kThrowAsgn))
    {
        *this = static_cast<const W<P>&>(w);
        w.v   = kMovedFrom;
        return *this;
    }
    friend void swap(V& a, V& b) noexcept(!(P & kThrowAsgn))
    {
        (void) a.get();
        (void) b.get();
        MC_MAYBE_THROW((P & kThrowAsgn) != 0, "swap");
        std::swap(a.v, b.v);
        swaps()++;
    }
};
/// The same without a swap of its own, so that std::swap moves three times.
template <typename Base, unsigned P = 0>
struct VS : Base
{
    using Base::Base;
    VS() = default;
    VS(std::initializer_list<int> il, int x = 0) noexcept(!(P & kThrowDef)) : Base(static_cast<int>(il.size()) + x) {}
    VS(const W<P>& w) noexcept(!(P & kThrowDef)) : Base(w.get()) {}
    VS(W<P>&& w) noexcept(!(P & kThrowDef)) : Base(w.get()) { w.v = kMovedFrom; }
    VS& operator=(const W<P>& w)
    {
        const int x = w.get();
        (void) this->get();
        MC_MAYBE_THROW((P & kThrowAsgn) != 0, "converting assignment");
        this->v = x;
        return *this;
    }
    VS& operator=(W<P>&& w)
    {
        *this = static_cast<const W<P>&>(w);
        w.v   = kMovedFrom;
        return *this;
    }
};
/// Has to be asked explicitly to be made from W.
template <typename Base>
struct VE : Base
{
    using Base::Base;
    VE() = default;
    VE(std::initializer_list<int> il, int x = 0) : Base(static_cast<int>(il.size()) + x) {}
    explicit VE(const W<0>& w) : Base(w.get()) {}
    explicit VE(W<0>&& w) : Base(w.get()) { w.v = kMovedFrom; }
    VE& operator=(const W<0>& w)
    {
        (void) this->get();
        this->v = w.get();
        return *this;
    }
    VE& operator=(W<0>&& w)
    {
        *this = static_cast<const W<0>&>(w);
        w.v   = kMovedFrom;
        return *this;
    }
};
/// Has an operator new of its own, which does not concern objects placed elsewhere.
struct OwnNew : VS<Elem<kCopy | kSelf>>
{
    using VS::VS;
    using VS::operator=;
    static void* operator new(std::size_t) { fail("operator new of the value type was called"); }
    static void  operator delete(void*) {}
};
/// Trivially copyable but not assignable.
struct ConstMember
{
    const int c;
    ConstMember() : c(0) {}
    ConstMember(int x) : c(x) {}
    ConstMember(int x, int y) : c(x + y) {}
    ConstMember(std::initializer_list<int> il, int x = 0) : c(static_cast<int>(il.size()) + x) {}
    ConstMember(const W<0>& w) : c(w.get()) {}
    int get() const { return c; }
};
/// Can be neither copied nor moved.
struct Fixed : Elem<kSelf>
{
    using Elem::Elem;
    Fixed(std::initializer_list<int> il, int x = 0) : Elem(static_cast<int>(il.size()) + x) {}
    Fixed(const W<0>& w) : Elem(w.get()) {}
    Fixed(const Fixed&)            = delete;
    Fixed& operator=(const Fixed&) = delete;
};

template <typename T>
inline int value_of(const T& t)
{
    return t.get();
}
inline int value_of(const int& t) { return t; }
inline int value_of(const short& t) { return t; }

struct Model
{
    bool has = false;
    int  v   = 0;
};
template <typename T, typename U, bool Moves, bool UMoves>
struct Kind
{
    using value                   = T;
    using other                   = U;
    static constexpr bool moves   = Moves;   // moving from a value changes it
    static constexpr bool u_moves = UMoves;  // moving from the other value changes it
};
template <bool B>
using bool_ = std::integral_constant<bool, B>;
template <typename F, typename X>
inline bool when(std::true_type, F&& f, X& x)
{
    f(x);
    return true;
}
template <typename F, typename X>
inline bool when(std::false_type, F&&, X&)
{
    return false;
}
template <typename T>
struct list_constructible : std::is_constructible<T, std::initializer_list<int>&, int>
{};

template <typename K>
class World
{
    using T = typename K::value;
    using U = typename K::other;
    using O = optional<T>;
    using Q = optional<U>;
    using R = std::remove_cv_t<T>;
    static constexpr bool cc   = std::is_copy_constructible<T>::value;
    static constexpr bool mv   = std::is_move_constructible<T>::value;
    static constexpr bool ca   = cc && std::is_copy_assignable<T>::value;
    static constexpr bool ma   = mv && std::is_move_assignable<T>::value;
    static constexpr bool from = std::is_constructible<T, const U&>::value;
    static constexpr bool conv_assign = from && std::is_assignable<T&, const U&>::value;
    static constexpr bool tracked     = !std::is_trivially_destructible<T>::value;

public:
    World()
    {
        s[0].make();
        s[1].make();
        q.make();
    }
    Key key()
    {
        StateHash h;
        for (auto& x : m)
            add(h, x);
        add(h, n);
        h.h.u64(static_cast<std::uint64_t>(ex().faults_left));
        return h.finish();
    }
    void check_all()
    {
        for (int i = 0; i < 2; i++)
            check_one(*s[i], m[i], static_cast<char>('a' + i));
        check_one(*q, n, 'q');
    }
    void check_lifetimes()
    {
        std::size_t e = 0;
        if (tracked)
            e += (m[0].has ? 1U : 0U) + (m[1].has ? 1U : 0U);
        if (!std::is_trivially_destructible<U>::value)
            e += n.has ? 1U : 0U;
        MC_CHECK(live_objects() == e, "%zu values alive, %zu expected", live_objects(), e);
    }
    bool step()
    {
        const int t = static_cast<int>(choose(2)), o = 1 - t;
        switch (choose(12))
        {
        case 0: return op_assign_value(t);
        case 1: return op_clear(t);
        case 2: return op_copy(t, choose(2) ? t : o);
        case 3: return op_move(t, choose(2) ? t : o);
        case 4: return op_emplace(t);
        case 5: return t == 0 && op_swap(0, static_cast<int>(choose(2)));
        case 6: return op_convert_assign(t);
        case 7: return op_recreate(t, o);
        case 8: return t == 0 && op_other();
        case 9: return op_write(t);
        case 10: return op_value_or(t);
        default: return op_take(t);
        }
    }

private:
    static void add(StateHash& h, const Model& x)
    {
        h.h.u64(x.has ? 1 : 0);
        h.h.u64(static_cast<std::uint64_t>(x.v));
    }
    template <typename X>
    static bool throws_bad_access(X&& f)
    {
#if defined(__cpp_exceptions)
        try
        {
            f();
        } catch (const cetl::pf17::bad_optional_access& e)
        {
            const std::exception& base = e;
            return base.what() != nullptr;
        }
        return false;
#else
        return expect_abort(f);
#endif
    }
    template <typename Opt>
    void check_one(Opt& x, const Model& e, char name)
    {
        using X        = typename Opt::value_type;
        const Opt& cx  = x;
        static_assert(std::is_same<decltype(*x), X&>::value, "");
        static_assert(std::is_same<decltype(*cx), const X&>::value, "");
        static_assert(std::is_same<decltype(*std::move(x)), X&&>::value, "");
        static_assert(std::is_same<decltype(*std::move(cx)), const X&&>::value, "");
        static_assert(std::is_same<decltype(x.value()), X&>::value, "");
        static_assert(std::is_same<decltype(cx.value()), const X&>::value, "");
        static_assert(std::is_same<decltype(std::move(x).value()), X&&>::value, "");
        static_assert(std::is_same<decltype(std::move(cx).value()), const X&&>::value, "");
        static_assert(std::is_same<decltype(x.operator->()), X*>::value, "");
        static_assert(std::is_same<decltype(cx.operator->()), const X*>::value, "");
        MC_CHECK(cx.has_value() == e.has, "%c: has_value() is %d", name, cx.has_value());
        MC_CHECK(static_cast<bool>(cx) == e.has, "%c: conversion to bool is %d", name, static_cast<bool>(cx));
        MC_CHECK((cx == nullopt) == !e.has && (nullopt != cx) == e.has, "%c: comparison with nullopt is wrong", name);
        if (e.has)
        {
            const X* const p = std::addressof(*cx);
            const char*    c = reinterpret_cast<const char*>(p);
            MC_CHECK(c >= reinterpret_cast<const char*>(&cx) && c + sizeof(X) <= reinterpret_cast<const char*>(&cx + 1), "%c: the value is not inside the optional", name);
            MC_CHECK(value_of(*p) == e.v, "%c: value %d, expected %d", name, value_of(*p), e.v);
            X&&       r1 = *std::move(x);
            const X&& r2 = *std::move(cx);
            X&&       r3 = std::move(x).value();
            const X&& r4 = std::move(cx).value();
            const void* all[] = {p, std::addressof(*x), std::addressof(x.value()), std::addressof(cx.value()), x.operator->(), cx.operator->(),
                                 std::addressof(r1), std::addressof(r2), std::addressof(r3), std::addressof(r4)};
            for (const void* a : all)
                MC_CHECK(a == p, "%c: the accessors refer to different objects", name);
        }
        else
        {
            MC_CHECK(throws_bad_access([&] { (void) x.value(); }), "%c: value() of an empty optional does not fail", name);
            MC_CHECK(throws_bad_access([&] { (void) cx.value(); }), "%c: value() const of an empty optional does not fail", name);
            MC_CHECK(throws_bad_access([&] { (void) std::move(x).value(); }), "%c: value() && of an empty optional does not fail", name);
            MC_CHECK(throws_bad_access([&] { (void) std::move(cx).value(); }), "%c: value() const&& of an empty optional does not fail", name);
        }
        when(bool_<std::is_copy_constructible<X>::value>{},
             [&](auto& y) {
                 const auto& cy = y;
                 MC_CHECK(value_of(cy.value_or(9)) == (e.has ? e.v : 9), "%c: value_or gives something else", name);
             },
             x);
    }
    void begin()
    {
        used0 = ex().faults_used;
        c0    = tr().ctors;
        d0    = tr().dtors;
    }
    bool faulted() const { return ex().faults_used > used0; }
    /// True if the operation succeeded; a failure has to be the injected one.
    bool ended(Out out)
    {
        if (out == Out::ok)
        {
            MC_CHECK(!faulted(), "the exception of the value did not reach the caller");
            return true;
        }
        MC_CHECK(faulted() && out == Out::injected, "the operation fails with %s without a reason", name(out));
        return false;
    }
    /// Engaged destinations are assigned to, empty ones get a new value.
    void check_effort(bool had, bool gets)
    {
        if (!tracked)
            return;
        const std::uint64_t dc = tr().ctors - c0, dd = tr().dtors - d0;
        const std::uint64_t ec = (!had && gets) ? 1 : 0, ed = (had && !gets) ? 1 : 0;
        MC_CHECK(dc == ec && dd == ed, "%llu constructions and %llu destructions instead of %llu and %llu", static_cast<unsigned long long>(dc),
                 static_cast<unsigned long long>(dd), static_cast<unsigned long long>(ec), static_cast<unsigned long long>(ed));
    }
    static int pick() { return 1 + static_cast<int>(choose(2)); }

    bool op_assign_value(int t)
    {
        const unsigned f = choose(5);
        const int      v = pick();
        Out            out = Out::other;
        bool           ok  = false;
        bool           had = m[t].has;
        int            nv  = v;
        switch (f)
        {
        case 0:  // anything convertible
            ok = when(bool_<ma>{}, [&](auto& x) {
                note("%c = %d", 'a' + t, v);
                begin();
                out = guarded([&] { MC_CHECK(&(x = v) == &x, "assignment returns another object"); });
            }, *s[t]);
            break;
        case 1:
            ok = when(bool_<ca>{}, [&](auto& x) {
                note("%c = const value %d", 'a' + t, v);
                const T val(v);
                begin();
                out = guarded([&] { MC_CHECK(&(x = val) == &x, "assignment returns another object"); });
                if (out == Out::ok)
                    check_effort(had, true);
                MC_CHECK(value_of(val) == v, "assignment changes the value it copies");
            }, *s[t]);
            break;
        case 2:
            ok = when(bool_<ma>{}, [&](auto& x) {
                note("%c = move(value %d)", 'a' + t, v);
                T val(v);
                begin();
                out = guarded([&] { x = std::move(val); });
                if (out == Out::ok)
                    check_effort(had, true);
                MC_CHECK(value_of(val) == (out == Out::ok && K::moves ? kMovedFrom : v), "the source of a move has value %d", value_of(val));
            }, *s[t]);
            break;
        case 3:  // from its own content
            if (!had)
                return false;
            nv = m[t].v;
            ok = when(bool_<ca>{}, [&](auto& x) {
                note("%c = *%c", 'a' + t, 'a' + t);
                begin();
                out = guarded([&] { x = *x; });
            }, *s[t]);
            break;
        default:
            ok = when(bool_<ma>{}, [&](auto& x) {
                note("%c = {%d}", 'a' + t, v);
                begin();
                out = guarded([&] { x = {T(v)}; });
            }, *s[t]);
        }
        if (!ok)
            return false;
        if (ended(out))
            m[t] = Model{true, nv};
        return true;
    }
    bool op_clear(int t)
    {
        const bool had = m[t].has;
        begin();
        switch (choose(3))
        {
        case 0:
            note("%c.reset()", 'a' + t);
            s[t]->reset();
            break;
        case 1:
            note("%c = nullopt", 'a' + t);
            MC_CHECK(&(*s[t] = nullopt) == &*s[t], "assignment returns another object");
            break;
        default:
            if (!when(bool_<ma>{}, [&](auto& x) {
                    note("%c = {}", 'a' + t);
                    x = {};
                }, *s[t]))
                return false;
        }
        check_effort(had, false);
        m[t] = Model{};
        return true;
    }
    bool op_copy(int t, int f)
    {
        Out        out = Out::other;
        const bool had = m[t].has;
        if (!when(bool_<ca>{}, [&](auto& x) {
                note("%c = %c", 'a' + t, 'a' + f);
                const O& y = *s[f];
                begin();
                out = guarded([&] { MC_CHECK(&(x = y) == &x, "assignment returns another object"); });
            }, *s[t]))
            return false;
        if (ended(out))
        {
            check_effort(had, m[f].has);
            m[t] = m[f];
        }
        return true;
    }
    bool op_move(int t, int f)
    {
        Out        out = Out::other;
        const bool had = m[t].has;
        if (!when(bool_<ma>{}, [&](auto& x) {
                note("%c = move(%c)", 'a' + t, 'a' + f);
                begin();
                out = guarded([&] { MC_CHECK(&(x = std::move(*s[f])) == &x, "assignment returns another object"); });
            }, *s[t]))
            return false;
        if (ended(out))
        {
            check_effort(had, m[f].has);
            if (t != f)
            {
                m[t] = m[f];
                if (K::moves && m[f].has)
                    m[f].v = kMovedFrom;
            }
        }
        return true;
    }
    bool op_emplace(int t)
    {
        Out            out = Out::other;
        const unsigned f   = choose(6);
        const int      v   = pick();
        int            e   = v;
        bool           ok  = true;
        T*             r   = nullptr;
        O&             x   = *s[t];
        switch (f)
        {
        case 0:
            note("%c.emplace(%d)", 'a' + t, v);
            begin();
            out = guarded([&] { r = const_cast<T*>(std::addressof(x.emplace(v))); });
            break;
        case 1:
            e = v + 1;
            ok = when(bool_<std::is_constructible<T, int, int>::value>{}, [&](auto& y) {
                note("%c.emplace(%d, 1)", 'a' + t, v);
                begin();
                out = guarded([&] { r = std::addressof(y.emplace(v, 1)); });
            }, x);
            break;
        case 2:
            e = 2 + v;
            ok = when(bool_<list_constructible<T>::value>{}, [&](auto& y) {
                note("%c.emplace({1, 1}, %d)", 'a' + t, v);
                begin();
                out = guarded([&] { r = std::addressof(y.emplace({1, 1}, v)); });
            }, x);
            break;
        case 3:
            e = 0;
            note("%c.emplace()", 'a' + t);
            begin();
            out = guarded([&] { r = std::addressof(x.emplace()); });
            break;
        case 4:
            ok = when(bool_<cc>{}, [&](auto& y) {
                const T val(v);
                note("%c.emplace(const value %d)", 'a' + t, v);
                begin();
                out = guarded([&] { r = std::addressof(y.emplace(val)); });
            }, x);
            break;
        default:
            ok = when(bool_<mv>{}, [&](auto& y) {
                R val(v);
                note("%c.emplace(move(value %d))", 'a' + t, v);
                begin();
                out = guarded([&] { r = std::addressof(y.emplace(std::move(val))); });
                MC_CHECK(value_of(val) == (out == Out::ok && K::moves ? kMovedFrom : v), "the source of a move has value %d", value_of(val));
            }, x);
        }
        if (!ok)
            return false;
        if (ended(out))
        {
            m[t] = Model{true, e};
            MC_CHECK(r == std::addressof(*x), "emplace returns another object");
        }
        else
            m[t] = Model{};
        return true;
    }
    bool op_swap(int t, int f)
    {
        const bool free_form = choose(2) == 1;
        Out        out       = Out::other;
        const int  n0        = swaps();
        const bool ok        = free_form ? when(bool_<ma>{}, [&](auto& x) {
            using std::swap;
            note("swap(%c, %c)", 'a' + t, 'a' + f);
            begin();
            out = guarded([&] { swap(x, *s[f]); });
        }, *s[t])
                                         : when(bool_<ma>{}, [&](auto& x) {
            note("%c.swap(%c)", 'a' + t, 'a' + f);
            begin();
            out = guarded([&] { x.swap(*s[f]); });
            if (out == Out::ok && m[t].has && m[f].has)
                check_swap(n0, &*x);
        }, *s[t]);
        if (!ok)
            return false;
        if (ended(out))
        {
            if (t != f)
                std::swap(m[t], m[f]);
            else if (m[t].has && t == f && free_form && K::moves)
                m[t].v = value_of(**s[t]);  // three moves onto itself
            return true;
        }
        if (free_form)
        {
            // std::swap of the whole optionals: any of the three steps may have failed
            for (int i : {t, f})
            {
                m[i].has = s[i]->has_value();
                m[i].v   = m[i].has ? value_of(**s[i]) : 0;
            }
            return true;
        }
        const Model a = m[t], b = m[f];
        for (int i : {t, f})
        {
            MC_CHECK(s[i]->has_value() == m[i].has, "a failed swap changes which optional has a value");
            if (!m[i].has)
                continue;
            const int v = value_of(**s[i]);
            MC_CHECK(a.has && b.has ? (v == a.v || v == b.v || v == kMovedFrom) : v == m[i].v, "value %d after a failed swap", v);
            m[i].v = v;
        }
        return true;
    }
    template <typename Base, unsigned P>
    static void check_swap(int n0, V<Base, P>*)
    {
        MC_CHECK(swaps() == n0 + 1, "the swap function of the value type was called %d times", swaps() - n0);
    }
    static void check_swap(int, ...) {}

    bool op_convert_assign(int t)
    {
        const bool rv  = choose(2) == 1;
        const bool had = m[t].has;
        Out        out = Out::other;
        if (!when(bool_<conv_assign>{}, [&](auto& x) {
                note("%c = %s(q)", 'a' + t, rv ? "move" : "copy");
                begin();
                const Q& cq = *q;
                out         = rv ? guarded([&] { MC_CHECK(&(x = std::move(*q)) == &x, "assignment returns another object"); })
                                 : guarded([&] { MC_CHECK(&(x = cq) == &x, "assignment returns another object"); });
            }, *s[t]))
            return false;
        if (ended(out))
        {
            check_effort(had, n.has);
            m[t] = n;
            if (rv && n.has && K::u_moves)
                n.v = kMovedFrom;
        }
        return true;
    }
    bool op_recreate(int t, int o)
    {
        const unsigned f   = choose(14);
        const int      v   = pick();
        Model          e   = Model{true, v};
        Out            out = Out::other;
        bool           ok  = true;
        auto&          z   = s[t];
        // A failing constructor is followed by an empty optional in the same place.
        auto prepare = [&](const char* how) {
            note("new %c: %s %d", 'a' + t, how, v);
            z.kill();
            begin();
        };
        switch (f)
        {
        case 0:
            e = Model{};
            prepare("empty");
            out = guarded([&] { z.make(); });
            break;
        case 1:
            e = Model{};
            prepare("from nullopt");
            out = guarded([&] { z.make(nullopt); });
            break;
        case 2:
            prepare("in place");
            out = guarded([&] { z.make(in_place, v); });
            break;
        case 3:
            e.v = 2 + v;
            ok  = when(bool_<list_constructible<T>::value>{}, [&](auto& y) {
                prepare("in place with a list");
                const std::initializer_list<int> il{1, 1};
                out = guarded([&] { y.make(in_place, il, v); });
            }, z);
            break;
        case 4:
            ok = when(bool_<std::is_constructible<T, int>::value>{}, [&](auto& y) {
                prepare("converting");
                out = guarded([&] { y.make(v); });
            }, z);
            break;
        case 5:
            ok = when(bool_<cc>{}, [&](auto& y) {
                const T val(v);
                prepare("from const value");
                out = guarded([&] { y.make(val); });
                MC_CHECK(value_of(val) == v, "construction changes the value it copies");
            }, z);
            break;
        case 6:
            ok = when(bool_<mv>{}, [&](auto& y) {
                R val(v);
                prepare("from moved value");
                out = guarded([&] { y.make(std::move(val)); });
            }, z);
            break;
        case 7:
            e  = m[o];
            ok = when(bool_<cc>{}, [&](auto& y) {
                prepare("copy of the other");
                out = guarded([&] { y.make(static_cast<const O&>(*s[o])); });
            }, z);
            break;
        case 8:
            e  = m[o];
            ok = when(bool_<mv>{}, [&](auto& y) {
                prepare("moved from the other");
                out = guarded([&] { y.make(std::move(*s[o])); });
                if (out == Out::ok && m[o].has && K::moves)
                    m[o].v = kMovedFrom;
            }, z);
            break;
        case 9:
            e  = n;
            ok = when(bool_<from>{}, [&](auto& y) {
                prepare("copy of q");
                out = guarded([&] { y.make(static_cast<const Q&>(*q)); });
            }, z);
            break;
        case 10:
            e  = n;
            ok = when(bool_<from>{}, [&](auto& y) {
                prepare("moved from q");
                out = guarded([&] { y.make(std::move(*q)); });
                if (out == Out::ok && n.has && K::u_moves)
                    n.v = kMovedFrom;
            }, z);
            break;
        case 11:
            ok = when(bool_<mv && !std::is_const<T>::value>{}, [&](auto& y) {
                prepare("make_optional(value)");
                out = guarded([&] { y.make(cetl::pf17::make_optional(T(v))); });
            }, z);
            break;
        case 12:
            ok = when(bool_<mv>{}, [&](auto& y) {
                prepare("make_optional<T>(value)");
                out = guarded([&] { y.make(cetl::pf17::make_optional<T>(v)); });
            }, z);
            break;
        default:
            e.v = 2 + v;
            ok  = when(bool_<mv && list_constructible<T>::value>{}, [&](auto& y) {
                prepare("make_optional<T>(list)");
                out = guarded([&] { y.make(cetl::pf17::make_optional<T>({1, 1}, v)); });
            }, z);
        }
        if (!ok)
            return false;
        if (ended(out))
        {
            m[t] = e;
            return true;
        }
        m[t] = Model{};
        check_lifetimes();
        z.make();
        return true;
    }
    bool op_other()
    {
        const int v = static_cast<int>(choose(3));
        if (v == 0)
        {
            note("q.reset()");
            q->reset();
            n = Model{};
            return true;
        }
        note("q.emplace(%d)", v);
        const Out out = guarded([&] { q->emplace(static_cast<short>(v)); }, false);
        MC_CHECK(out == Out::ok, "emplace fails with %s", name(out));
        n = Model{true, v};
        return true;
    }
    bool op_write(int t)
    {
        if (!m[t].has)
            return false;
        const int      v = pick();
        const unsigned f = choose(3);
        if (!when(bool_<ma>{}, [&](auto& x) {
                note("write %d through %c", v, 'a' + t);
                switch (f)
                {
                case 0: *x = T(v); break;
                case 1: x.value() = T(v); break;
                default: *x.operator->() = T(v);
                }
            }, *s[t]))
            return false;
        m[t].v = v;
        return true;
    }
    bool op_value_or(int t)
    {
        const unsigned f   = choose(3);
        int            got = -1;
        Out            out = Out::other;
        bool           ok  = false;
        switch (f)
        {
        case 0:
            ok = when(bool_<cc>{}, [&](auto& x) {
                note("%c.value_or(8)", 'a' + t);
                begin();
                const O& cx = x;
                out         = guarded([&] { got = value_of(cx.value_or(8)); });
            }, *s[t]);
            break;
        case 1:
            ok = when(bool_<mv>{}, [&](auto& x) {
                note("move(%c).value_or(8)", 'a' + t);
                begin();
                out = guarded([&] { got = value_of(std::move(x).value_or(8)); });
            }, *s[t]);
            break;
        default:
            ok = when(bool_<cc>{}, [&](auto& x) {
                const T d(8);
                note("%c.value_or(const value)", 'a' + t);
                begin();
                const O& cx = x;
                out         = guarded([&] { got = value_of(cx.value_or(d)); });
                MC_CHECK(value_of(d) == 8, "value_or changes its argument");
            }, *s[t]);
        }
        if (!ok)
            return false;
        if (ended(out))
        {
            MC_CHECK(got == (m[t].has ? m[t].v : 8), "value_or gives %d", got);
            if (f == 1 && m[t].has && K::moves)
                m[t].v = kMovedFrom;
        }
        return true;
    }
    bool op_take(int t)
    {
        if (!m[t].has)
            return false;
        const bool     f   = choose(2) == 1;
        int            got = -1;
        Out            out = Out::other;
        if (!when(bool_<mv>{}, [&](auto& x) {
                note("take the value out of %c", 'a' + t);
                begin();
                out = f ? guarded([&] {
                    T y(std::move(x).value());
                    got = value_of(y);
                })
                        : guarded([&] {
                              T y(*std::move(x));
                              got = value_of(y);
                          });
            }, *s[t]))
            return false;
        if (ended(out))
        {
            MC_CHECK(got == m[t].v, "took %d out of the optional", got);
            if (K::moves)
                m[t].v = kMovedFrom;
        }
        return true;
    }

    Slot<O>       s[2];
    Slot<Q>       q;
    Model         m[2], n;
    int           used0 = 0;
    std::uint64_t c0 = 0, d0 = 0;
};

template <typename K>
inline void scenario()
{
    World<K>  w;
    const int depth = ex().depth;
    for (int d = 0; d <= depth; d++)
    {
        const Key k = w.key();
        if (unseen(k))
            w.check_all();
        if (!boundary(k, depth - d) || d == depth)
            return;
        if (!w.step())
            return;
        transition();
        w.check_lifetimes();
    }
}
}  // namespace opt
}  // namespace mc
#endif
