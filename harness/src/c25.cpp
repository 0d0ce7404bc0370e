// C25: which alternative a variant picks for a value of another type, compared with the standard variant.
#define MC_MAIN
#include "../resource.hpp"

#include <cetl/pf17/variant.hpp>

#include <initializer_list>
#include <string>
#include <tuple>
#if __cplusplus >= 201703L
#    include <variant>
#endif

using namespace mc;
namespace
{
struct Cetl
{
    template <typename... Ts>
    using var = cetl::pf17::variant<Ts...>;
    template <std::size_t I>
    using at = cetl::pf17::in_place_index_t<I>;
};
#if __cplusplus >= 201703L
struct Std
{
    template <typename... Ts>
    using var = std::variant<Ts...>;
    template <std::size_t I>
    using at = std::in_place_index_t<I>;
};
#endif
struct Base
{};
struct Derived : Base
{};
struct FromInt
{
    FromInt() = default;
    FromInt(int) {}
};
struct FromDouble
{
    FromDouble() = default;
    FromDouble(double) {}
};
struct Explicit
{
    Explicit() = default;
    explicit Explicit(int) {}
};
struct Unassignable  // from int
{
    Unassignable() = default;
    Unassignable(int) {}
    Unassignable(const Unassignable&)            = default;
    Unassignable& operator=(const Unassignable&) = default;
    Unassignable& operator=(int)                 = delete;
};
struct MoveOnlyArg
{
    MoveOnlyArg()                         = default;
    MoveOnlyArg(MoveOnlyArg&&)            = default;
    MoveOnlyArg& operator=(MoveOnlyArg&&) = default;
};
struct List  // also takes a list of something an int does not fit in
{
    List() = default;
    List(int) {}
    List(std::initializer_list<char>) {}
};
struct Aggregate
{
    int a;
};
struct FromLvalue
{
    FromLvalue() = default;
    FromLvalue(int&) {}
};
struct FromAny
{
    FromAny() = default;
    template <typename X, typename = std::enable_if_t<!std::is_same<std::decay_t<X>, FromAny>::value>>
    FromAny(X&&)
    {}
};
struct ToInt
{
    operator int() const { return 1; }
};
struct ToMany
{
    operator int() const { return 1; }
    operator std::string() const { return "s"; }
};
enum Plain
{
    kPlain
};
enum class Scoped
{
    kScoped
};
template <int N>
struct alt_at;
#define ALT(n, ...)              \
    template <>                  \
    struct alt_at<n>             \
    {                            \
        using type = __VA_ARGS__; \
    };
ALT(0, int)
ALT(1, long)
ALT(2, double)
ALT(3, bool)
ALT(4, std::string)
ALT(5, const char*)
ALT(6, FromInt)
ALT(7, Base)
ALT(8, char)
ALT(9, unsigned)
ALT(10, float)
ALT(11, Derived)
ALT(12, void*)
ALT(13, FromDouble)
ALT(14, Explicit)
ALT(15, Unassignable)
ALT(16, MoveOnlyArg)
ALT(17, List)
ALT(18, Aggregate)
ALT(19, FromLvalue)
ALT(20, FromAny)
ALT(21, const int)
constexpr int kAlts    = 22;
constexpr int kTriples = 8;  // the first of them are also combined to triples
template <int N>
struct arg_at : alt_at<N>
{};
#define ARG(n, ...)              \
    template <>                  \
    struct arg_at<kAlts + n>     \
    {                            \
        using type = __VA_ARGS__; \
    };
ARG(0, short)
ARG(1, ToInt)
ARG(2, ToMany)
ARG(3, Plain)
ARG(4, Scoped)
ARG(5, Base*)
ARG(6, char[2])
ARG(7, unsigned long)
constexpr int kArgs = kAlts + 8;
const char*   names[] = {"int", "long", "double", "bool", "string", "const char*", "FromInt", "Base", "char", "unsigned", "float", "Derived", "void*", "FromDouble", "Explicit",
                       "Unassignable", "MoveOnly", "List", "Aggregate", "FromLvalue", "FromAny", "const int", "short", "ToInt", "ToMany", "Plain", "Scoped", "Base*", "char[2]",
                       "unsigned long"};
template <typename X>
struct object
{
    static X& get()
    {
        static std::remove_const_t<X> x{};
        return x;
    }
};
template <>
struct object<const char*>  // strings must not be made of null pointers
{
    static const char*& get()
    {
        static const char* x = "x";
        return x;
    }
};
/// -1: not available, otherwise the index
template <typename V, typename U, std::enable_if_t<std::is_constructible<V, U>::value, int> = 0>
int construct(U&& u)
{
    V v(std::forward<U>(u));
    return static_cast<int>(v.index());
}
template <typename V, typename U, std::enable_if_t<!std::is_constructible<V, U>::value, int> = 0>
int construct(U&&)
{
    return -1;
}
template <typename V, typename I, typename U, std::enable_if_t<std::is_assignable<V&, U>::value, int> = 0>
int assign(U&& u)
{
    V v(I{});
    v = std::forward<U>(u);
    return static_cast<int>(v.index());
}
template <typename V, typename I, typename U, std::enable_if_t<!std::is_assignable<V&, U>::value, int> = 0>
int assign(U&&)
{
    return -1;
}
/// Whether an object of type T can be made of {u}, which leaves out the narrowing conversions.
template <typename T, typename U, typename = void>
struct listed : std::false_type
{};
template <typename T>
using Array = T[1];
template <typename T, typename U>
struct listed<T, U, decltype(void(Array<T>{{std::declval<U>()}}))> : std::true_type
{};
/// The same by the standard, which does not look into the constructors.
template <typename T, typename U, typename = void>
struct unnarrowed : std::false_type
{};
template <typename T, typename U>
struct unnarrowed<T, U, decltype(void(Array<T>{std::declval<U>()}))> : std::true_type
{};
/// The imaginary functions F(T_i) the standard describes. All of them are at the same level.
template <bool Viable, int I, typename T>
struct Function
{
    void f(Function) const;
};
template <int I, typename T>
struct Function<true, I, T>
{
    std::integral_constant<int, I> f(T) const;
};
template <typename... Fs>
struct Functions;
template <typename A>
struct Functions<A> : A
{
    using A::f;
};
template <typename A, typename B>
struct Functions<A, B> : A, B
{
    using A::f;
    using B::f;
};
template <typename A, typename B, typename C>
struct Functions<A, B, C> : A, B, C
{
    using A::f;
    using B::f;
    using C::f;
};
template <typename A, typename B, typename C, typename D, typename... More>
struct Functions<A, B, C, D, More...> : A, Functions<B, C, D, More...>
{
    using A::f;
    using Functions<B, C, D, More...>::f;
};
template <typename Fs, typename U, typename = void>
struct selected : std::integral_constant<int, -1>
{};
template <typename Fs, typename U>
struct selected<Fs, U, decltype(void(decltype(std::declval<const Fs&>().f(std::declval<U>()))::value))> : decltype(std::declval<const Fs&>().f(std::declval<U>()))
{};
template <typename Is, typename U, typename... Ts>
struct expected;
template <int... Is, typename U, typename... Ts>
struct expected<std::integer_sequence<int, Is...>, U, Ts...>
    : selected<Functions<Function<listed<Ts, U>::value && std::is_constructible<Ts, U>::value, Is, Ts>...>, U>
{};
template <int I, typename U, typename... Ts>
struct at_index
{
    using T = std::tuple_element_t<static_cast<std::size_t>(I), std::tuple<Ts...>>;
    static constexpr bool assignable = std::is_assignable<T&, U>::value && std::is_constructible<T, U>::value;
    static constexpr bool safe       = std::is_nothrow_constructible<T, U>::value;
    static constexpr bool safe_both  = safe && std::is_nothrow_assignable<T&, U>::value;
};
template <typename U, typename... Ts>
struct at_index<-1, U, Ts...>
{
    static constexpr bool assignable = false, safe = false, safe_both = false;
};
constexpr bool all_of(std::initializer_list<bool> bs)
{
    for (const bool b : bs)
        if (!b)
            return false;
    return true;
}
struct Result
{
    int  made, assigned;
    bool implicit, safe, safe_assign;
};
template <typename L, typename U, typename... Ts>
Result get(U&& u)
{
    using V = typename L::template var<Ts...>;
    using I = typename L::template at<0>;
    Result r;
    r.made        = construct<V, U>(std::forward<U>(u));
    r.assigned    = assign<V, I, U>(std::forward<U>(u));
    r.implicit    = std::is_convertible<U, V>::value;
    r.safe        = std::is_nothrow_constructible<V, U>::value;
    r.safe_assign = std::is_nothrow_assignable<V&, U>::value;
    return r;
}
/// By the rule.
template <typename U, typename... Ts>
Result by_rule()
{
    constexpr int I = expected<std::make_integer_sequence<int, sizeof...(Ts)>, U, Ts...>::value;
    using At        = at_index<I, U, Ts...>;
    Result r;
    r.made     = I;
    r.implicit = I >= 0;
    r.safe     = At::safe;
    // If the alternative cannot be assigned the value, a temporary variant made of it is moved.
    const bool move   = all_of({(std::is_move_constructible<Ts>::value && std::is_move_assignable<Ts>::value)...});
    const bool nomove = all_of({(std::is_nothrow_move_constructible<Ts>::value && std::is_nothrow_move_assignable<Ts>::value)...});
    r.assigned        = (At::assignable || move) ? I : -1;
    r.safe_assign     = At::assignable ? At::safe_both : move && At::safe && nomove;
    return r;
}
/// By the standard variant, which does not care about narrowing inside of the constructors of the alternatives;
/// it is asked if this makes no difference for any of the alternatives.
template <typename U, typename T>
constexpr bool same_verdict()
{
    return !std::is_convertible<U, T>::value || (listed<T, U>::value && std::is_constructible<T, U>::value) == unnarrowed<T, U>::value;
}
template <typename Yes, typename U, typename... Ts>
struct by_standard
{
    static Result of(U&&) { return by_rule<U, Ts...>(); }
};
#if __cplusplus >= 201703L
template <typename U, typename... Ts>
struct by_standard<std::true_type, U, Ts...>
{
    static Result of(U&& u) { return get<Std, U, Ts...>(std::forward<U>(u)); }
};
#endif
struct Results
{
    Result is, rule, standard;
};
template <typename U, int... As>
Results evaluate(U&& u)
{
    using Asked = std::integral_constant<bool, all_of({same_verdict<U, typename alt_at<As>::type>()...})>;
    return {get<Cetl, U, typename alt_at<As>::type...>(std::forward<U>(u)), by_rule<U, typename alt_at<As>::type...>(),
            by_standard<Asked, U, typename alt_at<As>::type...>::of(std::forward<U>(u))};
}
constexpr bool in_all_categories(int a)
{
    return a == 0 || a == 4 || a == 6 || a == 11 || a == 16 || a == 20;  // int, string, FromInt, Derived, MoveOnly, FromAny
}
template <int A, int... As>
Results evaluate_category(unsigned, std::false_type)
{
    using X = typename arg_at<A>::type;
    return evaluate<X, As...>(std::move(object<X>::get()));
}
template <int A, int... As>
Results evaluate_category(unsigned c, std::true_type)
{
    using X = typename arg_at<A>::type;
    return (c == 1)   ? evaluate<const X&, As...>(object<X>::get())
           : (c == 2) ? evaluate<X&, As...>(object<X>::get())
                      : evaluate<X, As...>(std::move(object<X>::get()));
}
template <int... As>
void judge(int a, unsigned c, const Results& rs)
{
    const char* cats[] = {"an rvalue", "a const lvalue", "an lvalue"};
    std::string list;
    for (int x : {As...})
        list += (list.empty() ? "" : ", ") + std::string(names[x]);
    note("variant<%s> from %s of %s", list.c_str(), cats[c], names[a]);
    const char* l = list.c_str();
    for (int q = 0; q < 2; q++)
    {
        const Result& r = rs.is;
        const Result& e = q ? rs.standard : rs.rule;
        const char*   w = q ? "the standard variant" : "the rule";
        MC_CHECK(r.made == e.made, "variant<%s> made from %s of %s holds alternative %d, %d by %s (-1: not available)", l, cats[c], names[a], r.made, e.made, w);
        MC_CHECK(r.assigned == e.assigned, "variant<%s> assigned %s of %s holds alternative %d, %d by %s (-1: not available)", l, cats[c], names[a], r.assigned, e.assigned, w);
        MC_CHECK(r.implicit == e.implicit, "variant<%s> is %smade implicitly from %s of %s, unlike %s", l, r.implicit ? "" : "not ", cats[c], names[a], w);
        MC_CHECK(r.safe == e.safe, "making a variant<%s> from %s of %s is %snoexcept, unlike %s", l, cats[c], names[a], r.safe ? "" : "not ", w);
        MC_CHECK(r.safe_assign == e.safe_assign, "assigning %s of %s to a variant<%s> is %snoexcept, unlike %s", cats[c], names[a], l, r.safe_assign ? "" : "not ", w);
    }
    Hasher h;
    for (int x : {As...})
        h.u64(static_cast<std::uint64_t>(x));
    h.u64(static_cast<std::uint64_t>(a * 3 + static_cast<int>(c)));
    h.u64(static_cast<std::uint64_t>(rs.is.made + 1));
    h.u64(static_cast<std::uint64_t>(rs.is.assigned + 1));
    outcome(h.key());
}
using Eater = int[];
template <int... As, int... Args>
void arguments(std::integer_sequence<int, Args...>)
{
    const int      a = static_cast<int>(choose(sizeof...(Args)));
    const unsigned c = in_all_categories(a) ? choose(3) : 0;
    Results        r{};
    (void) Eater{(a == Args ? void(r = evaluate_category<Args, As...>(c, std::integral_constant<bool, in_all_categories(Args)>{})) : void(), 0)...};
    judge<As...>(a, c, r);
}
template <int A, int... Bs>
void pairs_with(std::integer_sequence<int, Bs...>)
{
    const int b = static_cast<int>(choose(sizeof...(Bs) + 1));
    if (b == static_cast<int>(sizeof...(Bs)))
        arguments<A>(std::make_integer_sequence<int, kArgs>{});
    else
        (void) Eater{(b == Bs ? arguments<A, Bs>(std::make_integer_sequence<int, kArgs>{}) : void(), 0)...};
}
template <int A, int B, int... Cs>
void triples_with(std::integer_sequence<int, Cs...>)
{
    const int c = static_cast<int>(choose(sizeof...(Cs)));
    (void) Eater{(c == Cs ? arguments<A, B, Cs>(std::make_integer_sequence<int, kTriples>{}) : void(), 0)...};
}
template <int A, int... Bs>
void triples_from(std::integer_sequence<int, Bs...> all)
{
    const int b = static_cast<int>(choose(sizeof...(Bs)));
    (void) Eater{(b == Bs ? triples_with<A, Bs>(all) : void(), 0)...};
}
// The parts divide the first alternative.
#if PART < 11
void pairs()
{
    if (choose(2))
        pairs_with<2 * PART>(std::make_integer_sequence<int, kAlts>{});
    else
        pairs_with<2 * PART + 1>(std::make_integer_sequence<int, kAlts>{});
}
MC_SCENARIO("pairs", 1, 0, 1, 0, &pairs);
#elif PART == 15
/// Made of an argument, assigned one, moved and moved over, each with or without noexcept; 16: not assignable from it.
struct Arg
{};
template <int P>
struct Safe
{
    Safe() = default;
    Safe(Arg) noexcept((P & 1) != 0) {}
    Safe& operator=(Arg) noexcept((P & 2) != 0) { return *this; }
    Safe(Safe&&) noexcept((P & 4) != 0) {}
    Safe& operator=(Safe&&) noexcept((P & 8) != 0) { return *this; }
};
template <int P>
struct SafeNoAssign
{
    SafeNoAssign() = default;
    SafeNoAssign(Arg) noexcept((P & 1) != 0) {}
    SafeNoAssign& operator=(Arg) = delete;
    SafeNoAssign(SafeNoAssign&&) noexcept((P & 4) != 0) {}
    SafeNoAssign& operator=(SafeNoAssign&&) noexcept((P & 8) != 0) { return *this; }
};
template <typename... Ts>
Results safety()
{
    Arg a;
    return {get<Cetl, Arg, Ts...>(std::move(a)), by_rule<Arg, Ts...>(), by_standard<std::true_type, Arg, Ts...>::of(std::move(a))};
}
template <int... Ps>
void safeties(std::integer_sequence<int, Ps...>)
{
    const int p    = static_cast<int>(choose(sizeof...(Ps)));
    const int form = static_cast<int>(choose(5));
    Results   r{};
    (void) Eater{(p == Ps ? void(r = form == 0   ? safety<Safe<Ps>>()
                                     : form == 1 ? safety<Safe<Ps>, int>()
                                     : form == 2 ? safety<void*, Safe<15 - Ps>, int>()
                                     : form == 3 ? safety<SafeNoAssign<Ps>>()
                                                 : safety<int, SafeNoAssign<Ps>>())
                          : void(),
                  0)...};
    note("profile %d form %d", p, form);
    for (int q = 0; q < 2; q++)
    {
        const Result& e = q ? r.standard : r.rule;
        MC_CHECK(r.is.made == e.made && r.is.assigned == e.assigned, "form %d profile %d: alternative %d made, %d assigned, %d and %d expected", form, p, r.is.made, r.is.assigned, e.made, e.assigned);
        MC_CHECK(r.is.safe == e.safe, "form %d profile %d: making the variant is %snoexcept", form, p, r.is.safe ? "" : "not ");
        MC_CHECK(r.is.safe_assign == e.safe_assign, "form %d profile %d: assigning is %snoexcept", form, p, r.is.safe_assign ? "" : "not ");
    }
    Hasher h;
    h.u64(static_cast<std::uint64_t>(p * 8 + form));
    outcome(h.key());
}
MC_SCENARIO("safety", 1, 0, 1, 0, ([] { safeties(std::make_integer_sequence<int, 16>{}); }));
#elif PART == 16
/// Long lists: the value fits into one alternative, or better into one of two, at each of the positions.
constexpr int kLong = 18;
template <int>
struct Pad
{};
template <int I, int Exact, int Other>
using Alternative = std::conditional_t<I == Exact, int, std::conditional_t<I == Other, FromInt, Pad<I>>>;
template <int Exact, int Other, int... Is>
Results long_list(std::integer_sequence<int, Is...>)
{
    int a = 1;
    return {get<Cetl, int, Alternative<Is, Exact, Other>...>(std::move(a)), by_rule<int, Alternative<Is, Exact, Other>...>(),
            by_standard<std::true_type, int, Alternative<Is, Exact, Other>...>::of(std::move(a))};
}
template <int... Ps>
void long_lists(std::integer_sequence<int, Ps...> all)
{
    const int p    = static_cast<int>(choose(sizeof...(Ps)));
    const int form = static_cast<int>(choose(4));
    Results   r{};
    (void) Eater{(p == Ps ? void(r = form == 0   ? long_list<Ps, -1>(all)
                                     : form == 1 ? long_list<-1, Ps>(all)
                                     : form == 2 ? long_list<Ps, (Ps + 1) % kLong>(all)
                                                 : long_list<Ps, (Ps + 11) % kLong>(all))
                          : void(),
                  0)...};
    note("position %d form %d", p, form);
    for (int q = 0; q < 2; q++)
    {
        const Result& e = q ? r.standard : r.rule;
        MC_CHECK(r.is.made == e.made && r.is.assigned == e.assigned, "form %d position %d: alternative %d made, %d assigned, %d and %d expected", form, p, r.is.made, r.is.assigned, e.made, e.assigned);
        MC_CHECK(e.made == p, "form %d position %d: %d expected", form, p, e.made);
        MC_CHECK(r.is.implicit == e.implicit && r.is.safe == e.safe && r.is.safe_assign == e.safe_assign, "form %d position %d: implicit %d, noexcept %d and %d", form, p, r.is.implicit, r.is.safe, r.is.safe_assign);
    }
    Hasher h;
    h.u64(static_cast<std::uint64_t>(p * 4 + form));
    outcome(h.key());
}
MC_SCENARIO("long", 1, 0, 1, 0, ([] { long_lists(std::make_integer_sequence<int, kLong>{}); }));
#else
void triples()
{
    if (choose(2))
        triples_from<2 * (PART - 11)>(std::make_integer_sequence<int, kTriples>{});
    else
        triples_from<2 * (PART - 11) + 1>(std::make_integer_sequence<int, kTriples>{});
}
MC_SCENARIO("triples", 1, 0, 1, 0, &triples);
#endif
}  // namespace
