// C24: visitation.
#define MC_MAIN
#include "../resource.hpp"

#include <cetl/pf17/variant.hpp>
#include <cetl/visit_helpers.hpp>

#include <memory>
#include <string>
#include <typeinfo>

using namespace mc;
using cetl::pf17::variant;
using cetl::pf17::visit;
namespace
{
#if defined(__cpp_exceptions)
constexpr unsigned kNone = 1;  // number of states without a value
#else
constexpr unsigned kNone = 0;
#endif
template <int K>
struct T
{
    explicit T(int x) : v(x)
    {
#if defined(__cpp_exceptions)
        if (x < 0)
            throw Injected{1};
#endif
    }
    int v;
};
struct Arg
{
    int         k, cat;
    const void* p;
};
struct Seen
{
    int calls;
    int visitor;  // category in which the visitor was called
    int n;
    Arg arg[4];
};
Seen seen;

template <int K>
int kind(const T<K>&)
{
    return K;
}
template <typename X>
constexpr int category()
{
    return (std::is_lvalue_reference<X>::value ? 0 : 2) + (std::is_const<std::remove_reference_t<X>>::value ? 1 : 0);
}
void record() {}
template <typename X, typename... Xs>
void record(X&& x, Xs&&... xs)
{
    if (seen.n < 4)
        seen.arg[seen.n] = Arg{kind(x), category<X&&>(), &x};
    seen.n++;
    record(std::forward<Xs>(xs)...);
}
/// Accepts anything and records it.
struct Visitor
{
    template <typename... Xs>
    int operator()(Xs&&... xs) &
    {
        return run(0, std::forward<Xs>(xs)...);
    }
    template <typename... Xs>
    int operator()(Xs&&... xs) const&
    {
        return run(1, std::forward<Xs>(xs)...);
    }
    template <typename... Xs>
    int operator()(Xs&&... xs) &&
    {
        return run(2, std::forward<Xs>(xs)...);
    }
    template <typename... Xs>
    int operator()(Xs&&... xs) const&&
    {
        return run(3, std::forward<Xs>(xs)...);
    }

private:
    template <typename... Xs>
    static int run(int how, Xs&&... xs)
    {
        seen.calls++;
        seen.visitor = how;
        seen.n       = 0;
        record(std::forward<Xs>(xs)...);
        return 1000 + seen.calls;
    }
};
template <typename X>
X& as(X& x, std::integral_constant<int, 0>)
{
    return x;
}
template <typename X>
const X& as(X& x, std::integral_constant<int, 1>)
{
    return x;
}
template <typename X>
X&& as(X& x, std::integral_constant<int, 2>)
{
    return std::move(x);
}
template <typename X>
const X&& as(X& x, std::integral_constant<int, 3>)
{
    return std::move(static_cast<const X&>(x));
}
template <int C>
using cat = std::integral_constant<int, C>;

/// Calls f with the categories chosen, four each for as many arguments as there are bounds.
template <typename F>
void categories(F&& f)
{
    switch (choose(4))
    {
    case 0: f(cat<0>{}); break;
    case 1: f(cat<1>{}); break;
    case 2: f(cat<2>{}); break;
    default: f(cat<3>{});
    }
}
template <typename F>
void two_categories(F&& f)  // the two that matter most
{
    if (choose(2))
        f(cat<1>{});
    else
        f(cat<2>{});
}
template <typename V>
void put(V&, unsigned, std::index_sequence<>)
{}
template <typename V, std::size_t I, std::size_t... Is>
void put(V& v, unsigned i, std::index_sequence<I, Is...>)
{
    if (i == I)
        v.template emplace<I>(static_cast<int>(I) + 10);
    else
        put(v, i, std::index_sequence<Is...>{});
}
template <typename... Ts>
struct Box
{
    using V = variant<Ts...>;
    V        v{cetl::pf17::in_place_index_t<0>{}, 1};
    unsigned state;
    Box() : state(choose(sizeof...(Ts) + kNone))
    {
        put(v, state, std::index_sequence_for<Ts...>{});
#if defined(__cpp_exceptions)
        if (state == sizeof...(Ts))
            try
            {
                v.template emplace<0>(-1);
            } catch (const Injected&)
            {
            }
#endif
    }
    bool valueless() const { return state == sizeof...(Ts); }
    int  type() const
    {
        static const int k[] = {kind_of(static_cast<Ts*>(nullptr))...};
        return k[state];
    }
    const void* address() const { return find(std::index_sequence_for<Ts...>{}); }

private:
    template <int K>
    static int kind_of(T<K>*)
    {
        return K;
    }
    template <std::size_t... Is>
    const void* find(std::index_sequence<Is...>) const
    {
        const void* p[] = {cetl::pf17::get_if<Is>(&v)...};
        return p[state];
    }
};
template <typename F>
bool throws_bad_access(F&& f)
{
#if defined(__cpp_exceptions)
    try
    {
        f();
    } catch (const cetl::pf17::bad_variant_access&)
    {
        return true;
    }
    return false;
#else
    return expect_abort(f);
#endif
}
struct Expected
{
    bool        valueless;
    int         k, cat;
    const void* p;
    unsigned    state;
};
template <typename B>
Expected expect(const B& b, int c)
{
    if (b.valueless())
        return Expected{true, 0, 0, nullptr, b.state};
    return Expected{false, b.type(), c, b.address(), b.state};
}
template <typename F>
void judge(std::initializer_list<Expected> e, int visitor, F&& f)
{
    bool   none = false;
    Hasher h;
    h.u64(static_cast<std::uint64_t>(visitor));
    for (auto& x : e)
    {
        none = none || x.valueless;
        note("alternative %u, category %d", x.state, x.cat);
        h.u64(x.state);
        h.u64(static_cast<std::uint64_t>(x.cat));
    }
    seen = Seen{};
    if (none)
    {
        MC_CHECK(throws_bad_access(f), "visiting a variant without a value succeeds");
        MC_CHECK(seen.calls == 0, "the visitor was called although a variant has no value");
    }
    else
    {
        const int r = f();
        MC_CHECK(seen.calls == 1, "the visitor was called %d times", seen.calls);
        MC_CHECK(r == 1001, "the result is %d", r);
        MC_CHECK(seen.n == static_cast<int>(e.size()), "%d arguments", seen.n);
        MC_CHECK(seen.visitor == visitor, "the visitor was called in category %d instead of %d", seen.visitor, visitor);
        int i = 0;
        for (auto& x : e)
        {
            MC_CHECK(seen.arg[i].k == x.k && seen.arg[i].p == x.p, "argument %d is another object", i);
            MC_CHECK(seen.arg[i].cat == x.cat, "argument %d has category %d instead of %d", i, seen.arg[i].cat, x.cat);
            i++;
        }
    }
    outcome(h.key());
}
#if PART == 0
void none()
{
    Visitor vis;
    seen        = Seen{};
    const int r = visit(vis);
    MC_CHECK(r == 1001 && seen.calls == 1 && seen.n == 0 && seen.visitor == 0, "visiting nothing");
    MC_CHECK(visit(Visitor{}) == 1002 && seen.visitor == 2, "visiting nothing");
    Hasher h;
    outcome(h.key());
}
void one()
{
    Box<T<0>, T<1>, T<2>, T<3>, T<4>> a;
    Visitor                           vis;
    categories([&](auto v) {
        categories([&](auto c) { judge({expect(a, c)}, v, [&] { return visit(as(vis, v), as(a.v, c)); }); });
    });
}
void duplicates()
{
    Box<T<0>, T<1>, T<0>> a;
    Box<T<1>, T<1>>       b;
    Visitor               vis;
    categories([&](auto c) {
        categories([&](auto d) { judge({expect(a, c), expect(b, d)}, 0, [&] { return visit(vis, as(a.v, c), as(b.v, d)); }); });
    });
}
/// The visitor's result is passed on as it is.
struct Uncopyable
{
    int id;
    explicit Uncopyable(int x) : id(x) {}
    Uncopyable(Uncopyable&&) = default;
};
int cell[4];
template <typename V>
void results_of(V& v, unsigned state)
{
    cell[3] = 0;
    auto none = [](auto& x) { cell[3] = x.v; };
    auto val  = [](auto& x) { return x.v; };
    auto ref  = [](auto& x) -> int& { return x.v; };
    auto cref = [](auto& x) -> const int& { return x.v; };
    auto rref = [](auto& x) -> int&& { return std::move(x.v); };
    auto mov  = [](auto& x) { return Uncopyable(x.v); };
    auto ptr  = [](auto& x) { return &x.v; };
    static_assert(std::is_same<decltype(visit(none, v)), void>::value, "");
    static_assert(std::is_same<decltype(visit(val, v)), int>::value, "");
    static_assert(std::is_same<decltype(visit(ref, v)), int&>::value, "");
    static_assert(std::is_same<decltype(visit(cref, v)), const int&>::value, "");
    static_assert(std::is_same<decltype(visit(rref, v)), int&&>::value, "");
    static_assert(std::is_same<decltype(visit(mov, v)), Uncopyable>::value, "");
    const int e = static_cast<int>(state) + 10;
    visit(none, v);
    MC_CHECK(cell[3] == e, "the visitor without a result saw %d", cell[3]);
    MC_CHECK(visit(val, v) == e, "the result is %d", visit(val, v));
    int* p = visit(ptr, v);
    MC_CHECK(&visit(ref, v) == p, "a reference to something else was returned");
    MC_CHECK(&visit(cref, v) == p, "a reference to something else was returned");
    int&& r = visit(rref, v);
    MC_CHECK(&r == p, "a reference to something else was returned");
    MC_CHECK(visit(mov, v).id == e, "another object was returned");
    MC_CHECK(*p == e, "visiting changed the value");
}
void results()
{
    Box<T<0>, T<1>, T<2>> a;
    if (a.valueless())
        return;
    note("alternative %u", a.state);
    results_of(a.v, a.state);
    // two variants
    Box<T<3>, T<4>> b;
    if (b.valueless())
        return;
    int  s    = 0;
    auto sum  = [&s](auto& x, auto& y) { s = x.v * 100 + y.v; };
    auto left = [](auto& x, auto&) -> int& { return x.v; };
    auto rght = [](auto&, auto& y) -> int&& { return std::move(y.v); };
    auto mov  = [](auto& x, auto& y) { return Uncopyable(x.v * 100 + y.v); };
    static_assert(std::is_same<decltype(visit(sum, a.v, b.v)), void>::value, "");
    static_assert(std::is_same<decltype(visit(left, a.v, b.v)), int&>::value, "");
    static_assert(std::is_same<decltype(visit(rght, a.v, b.v)), int&&>::value, "");
    static_assert(std::is_same<decltype(visit(mov, a.v, b.v)), Uncopyable>::value, "");
    const int e = static_cast<int>(a.state + 10) * 100 + static_cast<int>(b.state) + 10;
    visit(sum, a.v, b.v);
    MC_CHECK(s == e, "the visitor without a result saw %d", s);
    MC_CHECK(&visit(left, a.v, b.v) == a.address(), "a reference to something else was returned");
    int&& r = visit(rght, a.v, b.v);
    MC_CHECK(&r == b.address(), "a reference to something else was returned");
    MC_CHECK(visit(mov, a.v, b.v).id == e, "another object was returned");
    Hasher h;
    h.u64(static_cast<std::uint64_t>(e));
    outcome(h.key());
}
/// An exception of the visitor arrives.
void throwing()
{
#if defined(__cpp_exceptions)
    Box<T<0>, T<1>, T<2>> a;
    Box<T<0>, T<1>>       b;
    if (a.valueless() || b.valueless())
        return;
    note("alternatives %u and %u", a.state, b.state);
    int got = 0;
    try
    {
        visit([](auto& x, auto& y) { throw x.v * 100 + y.v; }, a.v, b.v);
    } catch (int x)
    {
        got = x;
    }
    const int e = static_cast<int>(a.state + 10) * 100 + static_cast<int>(b.state) + 10;
    MC_CHECK(got == e, "the exception is %d", got);
    Hasher h;
    h.u64(static_cast<std::uint64_t>(e));
    outcome(h.key());
#endif
}
MC_SCENARIO("none", 1, 0, 1, 0, &none);
MC_SCENARIO("one", 1, 0, 1, 0, &one);
MC_SCENARIO("duplicates", 1, 0, 1, 0, &duplicates);
MC_SCENARIO("results", 1, 0, 1, 0, &results);
MC_SCENARIO("throwing", 1, 0, 1, 0, &throwing);
#elif PART == 1
void two()
{
    Box<T<0>, T<1>, T<2>, T<3>, T<4>> a;
    Box<T<5>, T<6>, T<7>, T<8>, T<9>> b;
    Visitor                           vis;
    categories([&](auto c) {
        categories([&](auto d) { judge({expect(a, c), expect(b, d)}, 2, [&] { return visit(std::move(vis), as(a.v, c), as(b.v, d)); }); });
    });
}
/// The same variant as both arguments.
void twice()
{
    Box<T<0>, T<1>, T<2>, T<3>> a;
    const Visitor               vis;
    categories([&](auto c) {
        categories([&](auto d) { judge({expect(a, c), expect(a, d)}, 1, [&] { return visit(vis, as(a.v, c), as(a.v, d)); }); });
    });
}
MC_SCENARIO("two", 1, 0, 1, 0, &two);
MC_SCENARIO("twice", 1, 0, 1, 0, &twice);
#elif PART == 2
void three()
{
    Box<T<0>, T<1>, T<2>> a;
    Box<T<3>, T<4>>       b;
    Box<T<0>, T<5>, T<6>> c;
    Visitor               vis;
    categories([&](auto x) {
        categories([&](auto y) {
            categories([&](auto z) {
                judge({expect(a, x), expect(b, y), expect(c, z)}, 0, [&] { return visit(vis, as(a.v, x), as(b.v, y), as(c.v, z)); });
            });
        });
    });
}
MC_SCENARIO("three", 1, 0, 1, 0, &three);
#elif PART == 3
void four()
{
    Box<T<0>, T<1>, T<2>> a;
    Box<T<3>, T<4>>       b;
    Box<T<0>>             c;
    Box<T<5>, T<6>, T<7>> d;
    Visitor               vis;
    two_categories([&](auto w) {
        two_categories([&](auto x) {
            two_categories([&](auto y) {
                categories([&](auto z) {
                    judge({expect(a, w), expect(b, x), expect(c, y), expect(d, z)}, 0, [&] { return visit(vis, as(a.v, w), as(b.v, x), as(c.v, y), as(d.v, z)); });
                });
            });
        });
    });
}
void four_wide()
{
    Box<T<0>, T<1>, T<2>, T<3>, T<4>> a, b, c, d;
    Visitor                           vis;
    judge({expect(a, 1), expect(b, 0), expect(c, 2), expect(d, 3)}, 0, [&] { return visit(vis, as(a.v, cat<1>{}), as(b.v, cat<0>{}), as(c.v, cat<2>{}), as(d.v, cat<3>{})); });
}
MC_SCENARIO("four", 1, 0, 1, 0, &four);
MC_SCENARIO("four-wide", 1, 0, 1, 0, &four_wide);
#elif PART == 4 && __cplusplus >= 201703L
// ------------------------------------------------------------------------------------------------
// Sets of callables, compared with a class that has all their call operators.
struct Base
{};
struct Derived : Base
{};
template <int K>
struct F;
#define CALLABLE(k, ...)                 \
    template <>                          \
    struct F<k>                          \
    {                                    \
        int tag = k;                     \
        __VA_ARGS__ { return tag; }      \
    };
CALLABLE(0, int operator()(int) const)
CALLABLE(1, int operator()(double) const)
CALLABLE(2, int operator()(const char*) const)
CALLABLE(3, int operator()(const std::string&) const)
CALLABLE(4, template <typename X> int operator()(const X&) const)
CALLABLE(5, int operator()(const Base&) const)
CALLABLE(6, int operator()(long))
CALLABLE(7, template <typename X> int operator()(X&&) const)
CALLABLE(8, int operator()(int&) const)
CALLABLE(9, int operator()(...) const)
constexpr int kPool = 10;

template <typename... Ls>
struct Reference : Ls...
{
    using Ls::operator()...;
};
template <typename O, typename A, typename = void>
struct call
{
    static int run(O&&, A&&) { return -1; }
};
template <typename O, typename A>
struct call<O, A, std::void_t<decltype(std::declval<O>()(std::declval<A>()))>>
{
    static int run(O&& o, A&& a) { return std::forward<O>(o)(std::forward<A>(a)); }
};
template <typename A, typename O, typename R>
void compare(O& o, R& r, A&& a, const char* what)
{
    const O& co = o;
    const R& cr = r;
    const int x = call<O&, A&&>::run(o, std::forward<A>(a)), y = call<R&, A&&>::run(r, std::forward<A>(a));
    MC_CHECK(x == y, "with %s callable %d was called instead of %d", what, x, y);
    const int cx = call<const O&, A&&>::run(co, std::forward<A>(a)), cy = call<const R&, A&&>::run(cr, std::forward<A>(a));
    MC_CHECK(cx == cy, "with %s callable %d of the const set was called instead of %d", what, cx, cy);
    Hasher h;
    h.u64(static_cast<std::uint64_t>(x + 1));
    h.u64(static_cast<std::uint64_t>(cx + 1));
    h.u64(typeid(A).hash_code());
    outcome(h.key());
}
template <typename O, typename R>
void compare_all(O& o, R& r)
{
    int               i = 1;
    const int         ci = 1;
    char              c = 'c';
    const std::string s("s");
    Derived           d;
    const Derived     cd;
    switch (choose(14))
    {
    case 0: compare<int&>(o, r, i, "int&"); break;
    case 1: compare<const int&>(o, r, ci, "const int&"); break;
    case 2: compare<int>(o, r, 1, "int"); break;
    case 3: compare<char&>(o, r, c, "char"); break;
    case 4: compare<long>(o, r, 1L, "long"); break;
    case 5: compare<float>(o, r, 1.F, "float"); break;
    case 6: compare<double>(o, r, 1., "double"); break;
    case 7: compare<const char (&)[2]>(o, r, "a", "literal"); break;
    case 8: compare<const std::string&>(o, r, s, "string"); break;
    case 9: compare<std::string>(o, r, std::string("t"), "string&&"); break;
    case 10: compare<Derived&>(o, r, d, "Derived&"); break;
    case 11: compare<const Derived&>(o, r, cd, "const Derived&"); break;
    case 12: compare<bool>(o, r, true, "bool"); break;
    default: compare<short>(o, r, static_cast<short>(1), "short");
    }
}
template <int... Ks>
void one_set()
{
    std::string names;
    ((names += " " + std::to_string(Ks)), ...);
    note("callables%s", names.c_str());
    auto             o = cetl::make_overloaded(F<Ks>{}...);
    Reference<F<Ks>...> r{};
    compare_all(o, r);
    auto copy  = o;
    auto moved = std::move(copy);
    const bool kept = (... && (static_cast<const F<Ks>&>(moved).tag == Ks));
    MC_CHECK(kept, "a callable lost its state");
}
/// All ascending sequences of callables, at most Left more.
template <int Left, int... Ks>
struct Sets
{
    static constexpr int last = sizeof...(Ks) == 0 ? -1 : std::max({-1, Ks...});
    static void          run()
    {
        if constexpr (sizeof...(Ks) > 0)
        {
            if (choose(2) == 0)
            {
                one_set<Ks...>();
                return;
            }
        }
        if constexpr (Left > 0)
            step(choose(kPool), std::make_integer_sequence<int, kPool>{});
    }
    template <int... Ns>
    static void step(unsigned k, std::integer_sequence<int, Ns...>)
    {
        ((k == Ns ? next<Ns>() : (void) 0), ...);
    }
    template <int N>
    static void next()
    {
        if constexpr (N > last)
            Sets<Left - 1, Ks..., N>::run();
    }
};
void overload_sets() { Sets<3>::run(); }
MC_SCENARIO("overload-sets", 1, 0, 1, 0, &overload_sets);
#elif PART == 5
// ------------------------------------------------------------------------------------------------
struct Base
{};
struct Derived : Base
{};
void overloaded_visitor()
{
    using V       = variant<int, double, const char*, std::string, Derived, long>;
    const unsigned i = choose(6);
    const bool     fallback = choose(2) == 1;
    V              v;
    switch (i)
    {
    case 0: v.emplace<0>(1); break;
    case 1: v.emplace<1>(1.5); break;
    case 2: v.emplace<2>("x"); break;
    case 3: v.emplace<3>("y"); break;
    case 4: v.emplace<4>(); break;
    default: v.emplace<5>(3L);
    }
    note("alternative %u", i);
    int       calls = 0;
    int       got   = -1;
    if (fallback)
        got = visit(cetl::make_overloaded([&](const auto&) { return calls++, 9; }, [&](double) { return calls++, 1; }, [&](const std::string&) { return calls++, 3; }), v);
    else
        got = visit(cetl::make_overloaded([&](int) { return calls++, 0; }, [&](double) { return calls++, 1; }, [&](const char*) { return calls++, 2; },
                                          [&](const std::string&) { return calls++, 3; }, [&](const Base&) { return calls++, 4; }, [&](long) { return calls++, 5; }),
                    v);
    const int e = !fallback || i == 1 || i == 3 ? static_cast<int>(i) : 9;
    MC_CHECK(calls == 1 && got == e, "callable %d was called %d times, %d expected", got, calls, e);
    Hasher h;
    h.u64(static_cast<std::uint64_t>(got));
    h.u64(fallback ? 1 : 0);
    outcome(h.key());
}
struct One
{
    constexpr int operator()(int) const { return 1; }
};
struct Two
{
    constexpr int operator()(const char*) const { return 2; }
};
/// Callables that change their state, move-only captures, and a single callable.
void overloaded_state()
{
    auto set = cetl::make_overloaded([n = 0](int x) mutable { return n += x; }, [n = 100](double) mutable { return n++; });
    const unsigned steps = choose(4);
    int            a = 0, b = 100;
    for (unsigned s = 0; s < steps; s++)
        if (choose(2))
        {
            const int x = 1 + static_cast<int>(choose(2));
            a += x;
            const int got = set(x);
            MC_CHECK(got == a, "state %d, %d expected", got, a);
        }
        else
        {
            const int got = set(1.5);
            MC_CHECK(got == b, "state %d, %d expected", got, b);
            b++;
        }
    auto copy = set;
    MC_CHECK(copy(1) == a + 1 && set(0) == a, "copies share their state");
    auto moved = std::move(copy);
    MC_CHECK(moved(0) == a + 1 && moved(2.5) == b, "moving loses the state");
    auto single = cetl::make_overloaded([k = steps](auto x) { return x + static_cast<int>(k); });
    auto again  = single;
    MC_CHECK(again(1) == static_cast<int>(steps) + 1, "a single callable loses its state");
    auto unique = cetl::make_overloaded([p = std::unique_ptr<int>(new int(5))](int) { return *p; }, [](const char*) { return 0; });
    auto taken  = std::move(unique);
    MC_CHECK(taken(1) == 5 && taken("") == 0, "moving loses a captured object");
    auto lone = cetl::make_overloaded([p = std::unique_ptr<int>(new int(6))](int) { return *p; });
    auto last = cetl::make_overloaded([](const char*) { return 0; }, [p = std::unique_ptr<int>(new int(7))](int) { return *p; });
    MC_CHECK(lone(1) == 6 && last(1) == 7 && last("") == 0, "captured objects are lost");
    constexpr auto fixed = cetl::make_overloaded(One{}, Two{});
    static_assert(fixed(1) == 1 && fixed("") == 2, "sets of constant callables are constant");
    Hasher h;
    h.u64(static_cast<std::uint64_t>(a));
    h.u64(static_cast<std::uint64_t>(b));
    outcome(h.key());
}
MC_SCENARIO("overloaded-visitor", 1, 0, 1, 0, &overloaded_visitor);
MC_SCENARIO("overloaded-state", 1, 0, 1, 0, &overloaded_state);
#endif
}  // namespace
