// C31: the same histories in every build; what they show is compared between the builds (see run.py).
#define MC_MAIN
#include "../pfres.hpp"

#include <cetl/cetl.hpp>
#include <cetl/pf17/array_memory_resource.hpp>
#include <cetl/pf17/buffer_memory_resource.hpp>
#include <cetl/pf17/cetlpf.hpp>
#include <cetl/pf17/memory_resource.hpp>
#include <cetl/pf17/optional.hpp>
#include <cetl/pf17/string_view.hpp>
#include <cetl/pf17/type_traits.hpp>
#include <cetl/pf17/variant.hpp>
#include <cetl/pf20/cetlpf.hpp>
#include <cetl/pf20/span.hpp>
#include <cetl/pmr/buffer_memory_resource_delegate.hpp>
#include <cetl/pmr/function.hpp>
#include <cetl/pmr/interface_ptr.hpp>
#include <cetl/pmr/memory.hpp>
#include <cetl/rtti.hpp>
#include <cetl/unbounded_variant.hpp>
#include <cetl/variable_length_array.hpp>
#include <cetl/visit_helpers.hpp>

#include <array>
#include <string>

namespace cetl
{
template <>
constexpr type_id type_id_getter<int>() noexcept
{
    return {{1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11, 12, 13, 14, 15, 16}};
}
}  // namespace cetl
using namespace mc;
namespace
{
/// Everything a world shows: goes to the comparison and identifies the state.
struct Eye
{
    Hasher h;
    void   operator()(const char* what, std::int64_t v)
    {
        observe(what, static_cast<std::uint64_t>(v));
        h.u64(static_cast<std::uint64_t>(v));
    }
};
template <typename W>
void explore(W& w)
{
    const int depth = ex().depth;
    for (int d = 0; d <= depth; d++)
    {
        Eye eye;
        w.look(eye);
        const Key k = eye.h.key();
        if (!boundary(k, depth - d) || d == depth)
            return;
        if (!w.step())
            return;
        transition();
    }
}
using E1 = Elem<kCopy | kSelf, 1>;
using E2 = Elem<kCopy | kSelf | kBig, 2>;
/// What the elements see: constructions and destructions balance, so the number alive is enough.
void lives(Eye& eye)
{
    eye("objects", static_cast<std::int64_t>(live_objects()));
    eye("blocks", static_cast<std::int64_t>(live_blocks()));
}
// ------------------------------------------------------------------------------------------ arrays
template <typename T>
struct Value
{
    static T   make(int v) { return T(v); }
    static int get(const T& t) { return val(t); }
};
template <>
struct Value<bool>
{
    static bool make(int v) { return v % 2 != 0; }
    static int  get(bool t) { return t; }
};
template <typename T>
struct Arrays
{
    using A = cetl::VariableLengthArray<T, cetl::pmr::polymorphic_allocator<T>>;
    using V = Value<T>;
    Slot<A> s[2];
    static constexpr int big = std::is_same<T, bool>::value ? 9 : 3;

    Arrays()
    {
        const unsigned lim = choose(2);
        s[0].make(lim ? static_cast<std::size_t>(big + 4) : std::size_t(1000), cetl::pmr::polymorphic_allocator<T>(&res(0)));
        s[1].make(cetl::pmr::polymorphic_allocator<T>(&res(1)));
    }
    void look(Eye& eye)
    {
        for (auto& x : s)
        {
            const A& a = *x;
            eye("size", static_cast<std::int64_t>(a.size()));
            eye("capacity", static_cast<std::int64_t>(a.capacity()));
            eye("limit", static_cast<std::int64_t>(std::min<std::size_t>(a.max_size(), 1000)));  // the resources of the standard have none
            eye("empty", a.empty());
            for (std::size_t i = 0; i < a.size(); i++)
                eye("element", V::get(a[i]));
            std::int64_t sum = 0;
            for (auto&& e : a)
                sum = sum * 3 + V::get(e);
            eye("iterated", sum);
            eye("distance", a.cend() - a.cbegin());
            if (!a.empty())
                eye("ends", V::get(a.front()) * 10 + V::get(a.back()));
        }
        eye("equal", *s[0] == *s[1]);
        eye("unequal", *s[0] != *s[1]);
        lives(eye);
    }
    bool step()
    {
        const int t = static_cast<int>(choose(2));
        A&        a = *s[t];
        A&        b = *s[1 - t];
        const int v = 1 + static_cast<int>(a.size() % 2);
        static const int counts[] = {0, 1, 2, big};
        switch (choose(15))
        {
        case 0: note("a%d.push_back", t); if (full(a)) return false; a.push_back(V::make(v)); break;
        case 1: note("a%d.emplace_back", t); if (full(a)) return false; a.emplace_back(v); break;
        case 2: note("a%d.pop_back", t); if (a.empty()) return false; a.pop_back(); break;
        case 3: { const int n = counts[choose(4)]; note("a%d.resize(%d)", t, n); a.resize(n); break; }
        case 4: { const int n = counts[choose(4)]; note("a%d.resize(%d, %d)", t, n, v); a.resize(n, V::make(v)); break; }
        case 5: { const int n = counts[choose(4)]; note("a%d.assign(%d, %d)", t, n, v); a.assign(n, V::make(v)); break; }
        case 6: { const int n = counts[choose(4)]; note("a%d.reserve(%d)", t, n); a.reserve(n); break; }
        case 7: note("a%d.shrink_to_fit", t); a.shrink_to_fit(); break;
        case 8: note("a%d.clear", t); a.clear(); break;
        case 9: note("a%d = other", t); if (b.size() > a.max_size()) return false; a = b; break;
        case 10: note("a%d = move(other)", t); if (b.size() > a.max_size()) return false; a = std::move(b); b.clear(); break;
        case 11: { note("a%d = copy built", t); A c(b); observe("copy", c == b); observe("copied", c.capacity() >= c.size()); break; }
        case 12: note("a%d.front() = %d", t, v + 1); if (a.empty()) return false; a[0] = V::make(v + 1); break;
        case 13: { note("a%d built of a list", t); A c({V::make(1), V::make(2), V::make(1)}, cetl::pmr::polymorphic_allocator<T>(&res(t))); if (c.size() > a.max_size()) return false; a = std::move(c); break; }
        default: { note("a%d of moved other", t); A c(std::move(b)); observe("moved", static_cast<std::uint64_t>(c.size())); b = std::move(c); break; }
        }
        return true;
    }
    static bool full(const A& a) { return a.size() == a.max_size(); }
};
// ------------------------------------------------------------------------------------------ any
struct BaseA : cetl::rtti_helper<cetl::type_id_type<0xA1>>
{
    int a = 11;
};
struct BaseB : cetl::rtti_helper<cetl::type_id_type<0xB1>>
{
    int b = 22;
};
struct Both : cetl::rtti_helper<cetl::type_id_type<0xAB>, BaseA, BaseB>
{
    E1  e;
    int v;
    explicit Both(int x) : e(x), v(x) {}
    int get() const { return e.get(); }
};
struct T1 : E1
{
    using E1::E1;
    static constexpr cetl::type_id _get_type_id_() noexcept { return cetl::type_id_type_value<cetl::type_id_type<0x01>>(); }
};
struct T2 : E2
{
    using E2::E2;
    static constexpr cetl::type_id _get_type_id_() noexcept { return cetl::type_id_type_value<cetl::type_id_type<0x02>>(); }
};
template <std::size_t F, bool Pmr>
struct Anys
{
    using A = cetl::unbounded_variant<F, true, true, 16, std::conditional_t<Pmr, cetl::pmr::memory_resource, void>>;
    Slot<A> s[2];
    Anys() { make(std::integral_constant<bool, Pmr>{}); }
    void make(std::true_type)
    {
        for (int i = 0; i < 2; i++)
            s[i].make(&res(i));
    }
    void make(std::false_type)
    {
        for (auto& x : s)
            x.make();
    }
    void look(Eye& eye)
    {
        for (auto& x : s)
        {
            const A& a = *x;
            eye("has", a.has_value());
            eye("lost", a.valueless_by_exception());
            eye("size", static_cast<std::int64_t>(a.type_size()));
            const cetl::type_id id = a.type_id();
            for (std::size_t i = 0; i < id.size(); i += 5)
                eye("id", id[i]);
            if (const int* p = cetl::get_if<int>(&a))
                eye("int", *p);
            if (const T1* p = cetl::get_if<T1>(&a))
                eye("one", p->get());
            if (const T2* p = cetl::get_if<T2>(&a))
                eye("two", cetl::get<const T2&>(a).get());
            if (const BaseA* p = cetl::get_if<BaseA>(&a))
                eye("base a", p->a);
            if (const BaseB* p = cetl::get_if<BaseB>(&a))
                eye("base b", p->b);
            if (const Both* p = cetl::get_if<Both>(&a))
                eye("both", p->get());
        }
        lives(eye);
    }
    bool step()
    {
        const int t = static_cast<int>(choose(2));
        A&        a = *s[t];
        A&        b = *s[1 - t];
        const int v = 1 + static_cast<int>(choose(2));
        switch (choose(11))
        {
        case 0: note("%d.emplace int", t); observe("made", *a.template emplace<int>(v)); break;
        case 1: note("%d.emplace one", t); observe("made", a.template emplace<T1>(v)->get()); break;
        case 2: note("%d.emplace two", t); observe("made", a.template emplace<T2>(v)->get()); break;
        case 3: note("%d.emplace both", t); observe("made", a.template emplace<Both>(v)->get()); break;
        case 4: note("%d = value", t); a = T1(v); break;
        case 5: note("%d = other", t); if (v > 1) return false; a = b; break;
        case 6: note("%d = move(other)", t); if (v > 1) return false; a = std::move(b); b.reset(); break;
        case 7: note("%d.swap", t); if (v > 1) return false; a.swap(b); break;
        case 8: note("%d.reset", t); if (v > 1) return false; a.reset(); break;
        case 9: { note("copy of %d", t); if (v > 1) return false; A c(a); observe("copy", c.has_value()); observe("size", c.type_size()); break; }
        default: { note("%d = int value", t); const int x = v + 5; a = x; break; }
        }
        return true;
    }
};
// ------------------------------------------------------------------------------------------ functions
int plain(int x) { return x + 100; }
struct Adder
{
    E1 e;
    explicit Adder(int v) : e(v) {}
    int operator()(int x)
    {
        e.v = e.get() % 3 + 1;
        return e.get() + x;
    }
};
template <std::size_t F, bool Pmr>
struct Functions
{
    using Fn = cetl::pmr::function<int(int), F, std::conditional_t<Pmr, cetl::pmr::memory_resource, void>>;
    Slot<Fn> s[2];
    Functions() { make(std::integral_constant<bool, Pmr>{}); }
    void make(std::true_type)
    {
        for (int i = 0; i < 2; i++)
            s[i].make(&res(i));
    }
    void make(std::false_type)
    {
        for (auto& x : s)
            x.make();
    }
    void look(Eye& eye)
    {
        for (int i = 0; i < 2; i++)
        {
            eye("set", static_cast<bool>(*s[i]));
            eye("lost", s[i]->valueless_by_exception());
            eye("kind", kind[i]);
            eye("seen", seen[i]);
        }
        lives(eye);
    }
    void set(Fn& f, int v, std::true_type, int t) { f = Fn(&res(t), Adder(v)); }
    void set(Fn& f, int v, std::false_type, int) { f = Adder(v); }
    void set_plain(Fn& f, std::true_type, int t) { f = Fn(&res(t), &plain); }
    void set_plain(Fn& f, std::false_type, int) { f = &plain; }
    bool step()
    {
        const int t = static_cast<int>(choose(2));
        Fn&       a = *s[t];
        Fn&       b = *s[1 - t];
        std::integral_constant<bool, Pmr> p;
        switch (choose(9))
        {
        case 0: note("%d = adder(1)", t); set(a, 1, p, t); kind[t] = 1; seen[t] = 0; break;
        case 1: note("%d = adder(2)", t); set(a, 2, p, t); kind[t] = 2; seen[t] = 0; break;
        case 2: note("%d = plain", t); set_plain(a, p, t); kind[t] = 3; seen[t] = 0; break;
        case 3: note("%d = other", t); a = b; kind[t] = kind[1 - t]; seen[t] = seen[1 - t]; break;
        case 4: note("%d = move(other)", t); a = std::move(b); kind[t] = kind[1 - t]; seen[t] = seen[1 - t]; b.reset(); kind[1 - t] = 0; seen[1 - t] = 0; break;
        case 5: note("swap"); a.swap(b); std::swap(kind[0], kind[1]); std::swap(seen[0], seen[1]); break;
        case 6: note("%d.reset", t); a.reset(); kind[t] = 0; seen[t] = 0; break;
        case 7:
            note("call %d", t);
            if (!a)
                return false;
            seen[t] = a(5);
            observe("result", seen[t]);
            break;
        default: { note("copy of %d", t); Fn c(a); observe("copy", static_cast<bool>(c)); if (c) observe("called", c(7)); break; }
        }
        return true;
    }
    int kind[2] = {0, 0}, seen[2] = {0, 0};
};
// ------------------------------------------------------------------------------------------ optional and variant
/// The types of the library, and the ones it selects for the language standard.
struct Own
{
    template <typename T>
    using optional = cetl::pf17::optional<T>;
    template <typename... T>
    using variant = cetl::pf17::variant<T...>;
    using monostate   = cetl::pf17::monostate;
    using string_view = cetl::pf17::string_view;
    template <typename T, std::size_t N>
    using span = cetl::pf20::span<T, N>;
    template <typename T>
    using any_span = cetl::pf20::span<T>;
    static constexpr std::size_t dyn = cetl::pf20::dynamic_extent;
    static cetl::pf17::nullopt_t null() { return cetl::pf17::nullopt; }
    static cetl::pf17::in_place_t in() { return cetl::pf17::in_place_t{}; }
    template <typename F, typename V>
    static decltype(auto) visit(F&& f, V&& v) { return cetl::pf17::visit(std::forward<F>(f), std::forward<V>(v)); }
    template <std::size_t I, typename V>
    static auto get_if(V* v) { return cetl::pf17::get_if<I>(v); }
    template <typename T, typename V>
    static bool holds(const V& v) { return cetl::pf17::holds_alternative<T>(v); }
    template <std::size_t I, typename V>
    static decltype(auto) get(V&& v) { return cetl::pf17::get<I>(std::forward<V>(v)); }
    template <typename T>
    static auto some(T&& t) { return cetl::pf17::make_optional(std::forward<T>(t)); }
    template <typename V>
    static constexpr std::size_t size = cetl::pf17::variant_size_v<V>;
    static constexpr std::size_t npos = cetl::pf17::variant_npos;
};
struct Alias
{
    template <typename T>
    using optional = cetl::optional<T>;
    template <typename... T>
    using variant = cetl::variant<T...>;
    using monostate   = cetl::monostate;
    using string_view = cetl::string_view;
    template <typename T, std::size_t N>
    using span = cetl::span<T, N>;
    template <typename T>
    using any_span = cetl::span<T>;
    static constexpr std::size_t dyn = cetl::dynamic_extent;
    static cetl::nullopt_t null() { return cetl::nullopt; }
    static cetl::in_place_t in() { return cetl::in_place_t{}; }
    template <typename F, typename V>
    static decltype(auto) visit(F&& f, V&& v) { return cetl::visit(std::forward<F>(f), std::forward<V>(v)); }
    template <std::size_t I, typename V>
    static auto get_if(V* v) { return cetl::get_if<I>(v); }
    template <typename T, typename V>
    static bool holds(const V& v) { return cetl::holds_alternative<T>(v); }
    template <std::size_t I, typename V>
    static decltype(auto) get(V&& v) { return cetl::get<I>(std::forward<V>(v)); }
    template <typename T>
    static auto some(T&& t) { return cetl::make_optional(std::forward<T>(t)); }
    template <typename V>
    static constexpr std::size_t size = cetl::variant_size_v<V>;
    static constexpr std::size_t npos = cetl::variant_npos;
};
struct Cmp : E1
{
    using E1::E1;
    friend bool operator==(const Cmp& a, const Cmp& b) { return a.get() == b.get(); }
    friend bool operator!=(const Cmp& a, const Cmp& b) { return a.get() != b.get(); }
    friend bool operator<(const Cmp& a, const Cmp& b) { return a.get() < b.get(); }
    friend bool operator>(const Cmp& a, const Cmp& b) { return a.get() > b.get(); }
    friend bool operator<=(const Cmp& a, const Cmp& b) { return a.get() <= b.get(); }
    friend bool operator>=(const Cmp& a, const Cmp& b) { return a.get() >= b.get(); }
};
template <typename A, typename B>
void compare(Eye& eye, const A& a, const B& b)
{
    eye("==", a == b);
    eye("!=", a != b);
    eye("<", a < b);
    eye(">", a > b);
    eye("<=", a <= b);
    eye(">=", a >= b);
}
template <typename N>
struct Optionals
{
    using O = typename N::template optional<Cmp>;
    using I = typename N::template optional<int>;
    Slot<O> s[2];
    Slot<I> n;
    Optionals()
    {
        s[0].make();
        s[1].make(N::in(), 2);
        n.make();
    }
    void look(Eye& eye)
    {
        for (auto& x : s)
        {
            eye("has", x->has_value());
            eye("bool", static_cast<bool>(*x));
            eye("or", static_cast<const O&>(*x).value_or(Cmp(7)).get());
            if (*x)
                eye("value", (**x).get() * 100 + x->value().get() * 10 + (*x)->get());
            compare(eye, *x, Cmp(1));
            compare(eye, Cmp(2), *x);
            compare(eye, *x, N::null());
        }
        compare(eye, *s[0], *s[1]);
        eye("number", n->value_or(-1));
        compare(eye, *n, 2);
        compare(eye, *n, I(1));
        lives(eye);
    }
    bool step()
    {
        const int t = static_cast<int>(choose(2));
        O&        a = *s[t];
        O&        b = *s[1 - t];
        const int v = 1 + t;
        switch (choose(14))
        {
        case 0: note("%d.emplace", t); observe("made", a.emplace(v).get()); break;
        case 1: note("%d = value", t); a = Cmp(3 - v); break;
        case 2: note("%d = lvalue", t); { const Cmp c(v); a = c; } break;
        case 3: note("%d.reset", t); a.reset(); break;
        case 4: note("%d = nullopt", t); a = N::null(); break;
        case 5: note("%d = other", t); a = b; break;
        case 6: note("%d = move(other)", t); a = std::move(b); if (b) *b = Cmp(1); break;
        case 7: note("swap"); a.swap(b); break;
        case 8: note("swap by function"); { using std::swap; swap(a, b); } break;
        case 9: note("n = %d", v); *n = v; break;
        case 10: note("n reset"); n->reset(); break;
        case 11: note("made"); { auto o = N::some(Cmp(v)); observe("made", o->get()); a = std::move(o); } break;
        case 12: note("copy built of %d", t); { O c(b); observe("copy", c.has_value()); a = std::move(c); } break;
        default: note("taken out of %d", t); { if (!a) return false; const Cmp c = *std::move(a); observe("got", c.get()); *a = Cmp(2); } break;
        }
        return true;
    }
};
struct E2c : E2
{
    using E2::E2;
    friend bool operator==(const E2c& a, const E2c& b) { return a.get() == b.get(); }
    friend bool operator!=(const E2c& a, const E2c& b) { return a.get() != b.get(); }
    friend bool operator<(const E2c& a, const E2c& b) { return a.get() < b.get(); }
    friend bool operator>(const E2c& a, const E2c& b) { return a.get() > b.get(); }
    friend bool operator<=(const E2c& a, const E2c& b) { return a.get() <= b.get(); }
    friend bool operator>=(const E2c& a, const E2c& b) { return a.get() >= b.get(); }
};
template <typename N>
struct Variants
{
    using M = typename N::monostate;
    using V = typename N::template variant<int, Cmp, M, int, E2c>;
    Slot<V> s[2];
    Variants()
    {
        s[0].make();
        s[1].make();
        s[1]->template emplace<1>(2);
        observe("alternatives", N::template size<V>);
    }
    void look(Eye& eye)
    {
        for (auto& x : s)
        {
            V& v = *x;
            eye("index", static_cast<std::int64_t>(v.index()));
            eye("lost", v.valueless_by_exception());
            eye("holds", N::template holds<Cmp>(v) * 2 + N::template holds<M>(v));
            if (auto p = N::template get_if<0>(&v))
                eye("zero", *p);
            if (auto p = N::template get_if<1>(&v))
                eye("one", p->get() + N::template get<1>(v).get());
            eye("two", N::template get_if<2>(&v) != nullptr);
            if (auto p = N::template get_if<3>(&v))
                eye("three", *p);
            if (auto p = N::template get_if<4>(&v))
                eye("four", p->get());
            eye("visited", N::visit(cetl::make_overloaded([](int i) { return i; }, [](const Cmp& c) { return 100 + c.get(); }, [](M) { return 200; }, [](const E2c& e) { return 300 + e.get(); }), v));
        }
        compare(eye, *s[0], *s[1]);
        lives(eye);
    }
    bool step()
    {
        const int t = static_cast<int>(choose(2));
        V&        a = *s[t];
        V&        b = *s[1 - t];
        const int v = 1 + t;
        switch (choose(13))
        {
        case 0: note("%d.emplace 0", t); observe("made", a.template emplace<0>(v)); break;
        case 1: note("%d.emplace 1", t); observe("made", a.template emplace<1>(v).get()); break;
        case 2: note("%d.emplace 2", t); a.template emplace<2>(); break;
        case 3: note("%d.emplace 3", t); observe("made", a.template emplace<3>(v)); break;
        case 4: note("%d.emplace 4", t); observe("made", a.template emplace<4>(v).get()); break;
        case 5: note("%d = value 1", t); a = Cmp(3 - v); break;
        case 6: note("%d = value 4", t); a = E2c(3 - v); break;
        case 7: note("%d = monostate", t); a = M{}; break;
        case 8: note("%d = other", t); a = b; break;
        case 9: note("%d = move(other)", t); a = std::move(b); b.template emplace<0>(1); break;
        case 10: note("swap"); a.swap(b); break;
        case 11: note("swap by function"); { using std::swap; swap(a, b); } break;
        default: note("copy built"); { V c(b); observe("copy", c.index()); a = std::move(c); } break;
        }
        return true;
    }
};
// ------------------------------------------------------------------------------------------ views
void view_done()
{
    Hasher h;
    h.u64(ex().trace);
    outcome(h.key());
}
template <typename N>
void strings()
{
    using S = typename N::string_view;
    auto any = [](std::string& to) {
        const unsigned n = choose(4);
        for (unsigned i = 0; i < n; i++)
            to += "ab"[choose(2)];
    };
    std::string x, y;
    any(x);
    any(y);
    const S a(x.data(), x.size()), b(y.data(), y.size());
    note("'%s' and '%s'", x.c_str(), y.c_str());
    Eye eye;
    compare(eye, a, b);
    eye("compare", (a.compare(b) > 0) - (a.compare(b) < 0));
    for (std::size_t p = 0; p <= 4; p++)
    {
        eye("find", static_cast<std::int64_t>(a.find(b, p)));
        eye("find char", static_cast<std::int64_t>(a.find('b', p)));
        for (std::size_t n = 0; n <= 4 && p <= a.size(); n++)
        {
            const S s = a.substr(p, n);
            eye("part", static_cast<std::int64_t>(s.size()));
            eye("at", s.data() - a.data());
        }
    }
    S t = a;
    if (!t.empty())
    {
        eye("front", t.front() * 256 + t.back());
        t.remove_prefix(1);
        eye("rest", t == b);
    }
    t.swap(t);
    eye("size", static_cast<std::int64_t>(t.size()));
    eye("made", S(x.c_str()) == a);
    for (char c : a)
        eye("char", c);
    view_done();
}
template <typename N>
void spans()
{
    static int data[6] = {5, 6, 7, 8, 9, 10};
    const unsigned n   = choose(6);
    typename N::template span<int, N::dyn> s(data, n);
    const unsigned o = choose(n + 1);
    const unsigned c = choose(n - o + 2);
    note("%u of %u at %u", c, n, o);
    Eye eye;
    eye("size", static_cast<std::int64_t>(s.size() * 1000 + s.size_bytes()));
    eye("empty", s.empty());
    const auto p = c == n - o + 1 ? s.subspan(o) : s.subspan(o, c);
    eye("part", static_cast<std::int64_t>(p.size()));
    eye("at", p.data() - data);
    eye("first", s.first(o).data() - data);
    eye("last", s.last(o).data() - data);
    eye("sizes", static_cast<std::int64_t>(s.first(o).size() * 100 + s.last(o).size()));
    for (int i : p)
        eye("element", i);
    std::int64_t back = 0;
    for (auto it = p.rbegin(); it != p.rend(); ++it)
        back = back * 11 + *it;
    eye("backwards", back);
    if (!p.empty())
        eye("ends", p.front() * 100 + p.back());
    std::array<int, 3> ar{{1, 2, 3}};
    typename N::template span<int, 3> f(ar);
    typename N::template any_span<const int> g(f);
    eye("fixed", static_cast<std::int64_t>(f.size() * 10 + g.size()) + g[2] + f.template subspan<1>().size() + f.template first<2>()[1]);
    view_done();
}
// ------------------------------------------------------------------------------------------ resources and pointers
alignas(64) unsigned char arena[96];
template <typename R>
struct Buffers
{
    R&                                       r;
    std::vector<std::pair<void*, std::size_t>> held;
    explicit Buffers(R& x) : r(x) {}
    ~Buffers()
    {
        for (auto& x : held)
            r.deallocate(x.first, x.second);
    }
    void look(Eye& eye)
    {
        eye("max", static_cast<std::int64_t>(r.max_size() % 100000));
        for (auto& x : held)
        {
            const auto p = static_cast<unsigned char*>(x.first) - arena;
            eye("block", p >= 0 && p < 96 ? p : -1);
            eye("size", static_cast<std::int64_t>(x.second));
        }
        lives(eye);
    }
    bool step()
    {
        static const std::size_t sizes[] = {1, 8, 33};
        if (choose(2) == 0)
        {
            const std::size_t n = sizes[choose(3)];
            note("allocate %zu", n);
            if (held.size() == 3)
                return false;
            void* const p = r.allocate(n);
            std::memset(p, 7, n);
            held.emplace_back(p, n);
            return true;
        }
        if (held.empty())
            return false;
        const unsigned i = choose(static_cast<unsigned>(held.size()));
        note("deallocate %u", i);
        r.deallocate(held[i].first, held[i].second);
        held.erase(held.begin() + i);
        return true;
    }
};
struct Face
{
    virtual int get() const = 0;

protected:
    ~Face() = default;
};
struct Impl1 final : Face
{
    E1 e;
    explicit Impl1(int v) : e(v) {}
    int get() const override { return e.get(); }
};
struct Impl2 final : Face
{
    E2 e;
    explicit Impl2(int v) : e(v) {}
    int get() const override { return 10 + e.get(); }
};
struct Pointers
{
    using P = cetl::pmr::InterfacePtr<Face>;
    Slot<P> s[2];
    Pointers()
    {
        for (auto& x : s)
            x.make();
    }
    void look(Eye& eye)
    {
        for (auto& x : s)
        {
            eye("set", static_cast<bool>(*x));
            if (*x)
                eye("value", (*x)->get());
        }
        lives(eye);
    }
    bool step()
    {
        const int t = static_cast<int>(choose(2));
        P&        a = *s[t];
        P&        b = *s[1 - t];
        switch (choose(6))
        {
        case 0: { note("%d makes 1", t); cetl::pmr::polymorphic_allocator<Impl1> al(&res(t)); a = cetl::pmr::InterfaceFactory::make_unique<Face>(al, 1 + t); break; }
        case 1: { note("%d makes 2", t); cetl::pmr::polymorphic_allocator<Impl2> al(&res(1 - t)); a = cetl::pmr::InterfaceFactory::make_unique<Face>(al, 2 - t); break; }
        case 2: note("%d reset", t); a.reset(); break;
        case 3: note("%d = move", t); a = std::move(b); break;
        case 4: note("swap"); a.swap(b); break;
        default: { note("moved"); P c(std::move(b)); observe("moved", static_cast<bool>(c)); a = std::move(c); break; }
        }
        return true;
    }
};
void registers()
{
    namespace pmr = cetl::pmr;
    pmr::memory_resource* const from = pmr::get_default_resource();
    Eye                         eye;
    pmr::memory_resource* const all[] = {&res(0), &res(1), pmr::new_delete_resource(), nullptr};
    pmr::memory_resource*       now   = from;
    auto                        which = [&](pmr::memory_resource* r) {
        for (int i = 0; i < 4; i++)
            if (all[i] == r)
                return i;
        return r == from ? 8 : 9;
    };
    for (int d = 0; d < 3; d++)
    {
        const unsigned k = choose(4);
        note("set %u", k);
        eye("was", which(pmr::set_default_resource(all[k])));
        now = all[k] == nullptr ? pmr::new_delete_resource() : all[k];
        eye("is", which(pmr::get_default_resource()) == which(now));
        eye("new/delete", which(pmr::new_delete_resource()) * 2 + (pmr::new_delete_resource() == pmr::get_default_resource()));
        pmr::polymorphic_allocator<int> al(pmr::get_default_resource());
        eye("used", which(al.resource()));
        int* const p = al.allocate(3);
        eye("held", static_cast<std::int64_t>(live_blocks()));
        al.deallocate(p, 3);
    }
    eye("equal", pmr::new_delete_resource()->is_equal(*pmr::new_delete_resource()) * 2 + pmr::null_memory_resource()->is_equal(*pmr::new_delete_resource()));
    pmr::set_default_resource(from);
    view_done();
}
#if defined(__cpp_exceptions)
// ------------------------------------------------------------------------------------------ what fails
/// Runs out of memory after so many requests.
struct Scarce final : cetl::pmr::memory_resource
{
    unsigned left;
    explicit Scarce(unsigned n) : left(n) {}

private:
    void* do_allocate(std::size_t n, std::size_t a) override
    {
        if (left == 0)
            throw std::bad_alloc();
        left--;
        return block_alloc(0, n, a, false);
    }
    void do_deallocate(void* p, std::size_t n, std::size_t a) override { block_free(0, p, n, a); }
    bool do_is_equal(const cetl::pmr::memory_resource& o) const noexcept override { return this == &o; }
#if __cplusplus < 201703L
    std::size_t do_max_size() const noexcept override { return 100000; }
    void*       do_reallocate(void*, std::size_t, std::size_t, std::size_t) override { return nullptr; }
#endif
};
template <typename F>
void fails(Eye& eye, const char* what, F&& f)
{
    eye(what, static_cast<int>(guarded(f)));
}
void failures()
{
    Eye eye;
    switch (choose(6))
    {
    case 0:
    {
        note("arrays");
        cetl::VariableLengthArray<E1, cetl::pmr::polymorphic_allocator<E1>> a(std::size_t(2), cetl::pmr::polymorphic_allocator<E1>(&res(0)));
        for (int i = 0; i < 3; i++)
            fails(eye, "push", [&] { a.push_back(E1(i)); });
        fails(eye, "resize", [&] { a.resize(3); });
        fails(eye, "reserve", [&] { a.reserve(9); });
        eye("size", static_cast<std::int64_t>(a.size() * 10 + a.capacity()));
        break;
    }
    case 1:
    {
        Scarce r(choose(4));
        note("arrays with memory for %u requests", r.left);
        cetl::VariableLengthArray<E1, cetl::pmr::polymorphic_allocator<E1>> a{cetl::pmr::polymorphic_allocator<E1>(&r)};
        for (int i = 0; i < 4; i++)
            fails(eye, "push", [&] { a.push_back(E1(i)); });
        eye("size", static_cast<std::int64_t>(a.size() * 10 + a.capacity()));
        break;
    }
    case 2:
    {
        note("optional");
        cetl::pf17::optional<int> o;
        fails(eye, "value", [&] { observe("no", o.value()); });
        cetl::optional<int> p;
        fails(eye, "alias", [&] { observe("no", p.value()); });
        break;
    }
    case 3:
    {
        note("variant");
        cetl::pf17::variant<int, char> o;
        fails(eye, "value", [&] { observe("no", cetl::pf17::get<1>(o)); });
        cetl::variant<int, char> p;
        fails(eye, "alias", [&] { observe("no", cetl::get<1>(p)); });
        break;
    }
    case 4:
    {
        Scarce r(choose(4));
        note("any with memory for %u requests", r.left);
        cetl::unbounded_variant<0, true, true, 16, cetl::pmr::memory_resource> a(&r);
        fails(eye, "get", [&] { observe("no", cetl::get<const int&>(a)); });
        for (int i = 0; i < 3; i++)
        {
            fails(eye, "emplace", [&] { a.emplace<T1>(i + 1); });
            eye("has", a.has_value() * 2 + a.valueless_by_exception());
        }
        break;
    }
    default:
    {
        note("string");
        const cetl::string_view s("ab");
        fails(eye, "substr", [&] { observe("no", s.substr(3).size()); });
        const cetl::pf17::string_view t("ab");
        fails(eye, "substr", [&] { observe("no", t.substr(3).size()); });
        break;
    }
    }
    lives(eye);
    view_done();
}
#endif
// ------------------------------------------------------------------------------------------ all together
/// Things inside of things: an optional of a variant of an array, kept in a variant of any type.
struct Mixed
{
    using Arr = cetl::VariableLengthArray<E1, cetl::pmr::polymorphic_allocator<E1>>;
    using Var = cetl::variant<int, Arr>;
    using Opt = cetl::optional<Var>;
    Slot<Opt> o;
    Slot<cetl::VariableLengthArray<cetl::optional<E1>, cetl::pmr::polymorphic_allocator<cetl::optional<E1>>>> list;
    Slot<cetl::pmr::function<int(int), 32>> f;
    Mixed()
    {
        o.make();
        list.make(cetl::pmr::polymorphic_allocator<cetl::optional<E1>>(&res(1)));
        f.make();
    }
    static Arr arr(int n)
    {
        Arr a(cetl::pmr::polymorphic_allocator<E1>(&res(0)));
        for (int i = 0; i < n; i++)
            a.emplace_back(i + 1);
        return a;
    }
    void look(Eye& eye)
    {
        eye("has", o->has_value());
        if (o->has_value())
        {
            eye("index", static_cast<std::int64_t>((**o).index()));
            if (const Arr* a = cetl::get_if<1>(&**o))
                for (auto& e : *a)
                    eye("element", e.get());
        }
        eye("list", static_cast<std::int64_t>(list->size() * 10 + list->capacity()));
        for (auto& x : *list)
            eye("item", x ? x->get() : -1);
        eye("set", static_cast<bool>(*f));
        if (*f)
            eye("call", (*f)(1));
        lives(eye);
    }
    bool step()
    {
        switch (choose(10))
        {
        case 0: note("number"); *o = Var(5); break;
        case 1: note("array"); *o = Var(arr(2)); break;
        case 2: note("grow"); if (!*o || (**o).index() != 1) return false; cetl::get<1>(**o).emplace_back(2); break;
        case 3: note("none"); o->reset(); break;
        case 4: note("add"); list->emplace_back(E1(static_cast<int>(list->size()) + 1)); break;
        case 5: note("add none"); list->emplace_back(); break;
        case 6: note("drop"); if (list->empty()) return false; list->pop_back(); break;
        case 7: { note("function"); const Adder a(2); *f = a; break; }
        case 8: { note("copy"); Opt c(*o); observe("copy", c.has_value()); *o = std::move(c); break; }
        default: { note("resize"); list->resize(3); break; }
        }
        return true;
    }
};
template <typename W>
void world()
{
    W w;
    explore(w);
}
#if PART == 0
MC_SCENARIO("arrays/elements", 4, 0, 5, 0, &world<Arrays<E1>>);
MC_SCENARIO("arrays/numbers", 4, 0, 5, 0, &world<Arrays<int>>);
MC_SCENARIO("arrays/bits", 4, 0, 5, 0, &world<Arrays<bool>>);
#elif PART == 1
MC_SCENARIO("any/local", 4, 0, 6, 0, (&world<Anys<64, false>>));
MC_SCENARIO("any/memory", 4, 0, 6, 0, (&world<Anys<0, true>>));
MC_SCENARIO("any/both", 4, 0, 6, 0, (&world<Anys<16, true>>));
MC_SCENARIO("function/local", 6, 0, 9, 0, (&world<Functions<48, false>>));
MC_SCENARIO("function/memory", 6, 0, 9, 0, (&world<Functions<0, true>>));
#elif PART == 2
MC_SCENARIO("optional/own", 6, 0, 9, 0, &world<Optionals<Own>>);
MC_SCENARIO("optional/alias", 6, 0, 9, 0, &world<Optionals<Alias>>);
MC_SCENARIO("variant/own", 5, 0, 8, 0, &world<Variants<Own>>);
MC_SCENARIO("variant/alias", 5, 0, 8, 0, &world<Variants<Alias>>);
#else
MC_SCENARIO("strings/own", 1, 0, 1, 0, &strings<Own>);
MC_SCENARIO("strings/alias", 1, 0, 1, 0, &strings<Alias>);
MC_SCENARIO("spans/own", 1, 0, 1, 0, &spans<Own>);
MC_SCENARIO("spans/alias", 1, 0, 1, 0, &spans<Alias>);
MC_SCENARIO("buffer", 6, 0, 8, 0, ([] {
                std::memset(arena, 0, sizeof arena);
                cetl::pf17::pmr::UnsynchronizedBufferMemoryResource r(arena, 32, &pfres(0), 1000);
                Buffers<decltype(r)> w(r);
                explore(w);
            }));
MC_SCENARIO("arraybuffer", 5, 0, 6, 0, ([] {
                cetl::pf17::pmr::UnsynchronizedArrayMemoryResource<32> r(&pfres(0), 1000);
                Buffers<decltype(r)> w(r);
                explore(w);
            }));
MC_SCENARIO("delegate", 6, 0, 8, 0, ([] {
                std::memset(arena, 0, sizeof arena);
                cetl::pmr::UnsynchronizedBufferMemoryResourceDelegate<cetl::pmr::memory_resource> r(arena, 32, &res(0), 1000);
                Buffers<decltype(r)> w(r);
                explore(w);
            }));
MC_SCENARIO("pointers", 6, 0, 9, 0, &world<Pointers>);
MC_SCENARIO("registers", 1, 0, 1, 0, &registers);
MC_SCENARIO("mixed", 5, 0, 7, 0, &world<Mixed>);
#if defined(__cpp_exceptions)
MC_SCENARIO("failures", 1, 0, 1, 0, &failures);
#endif
#endif
}  // namespace
