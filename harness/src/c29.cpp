// C29: type traits against direct evaluation and, where there is one, the standard trait.
#define MC_MAIN
#include "../resource.hpp"

#include <cetl/pf17/type_traits.hpp>
#include <cetl/pf17/utility.hpp>
#include <cetl/pf17/variant.hpp>
#include <cetl/type_traits_ext.hpp>

#include <array>
#include <limits>
#include <string>
#include <tuple>

using namespace mc;
namespace
{
namespace ext = cetl::type_traits_ext;
namespace pf  = cetl::pf17;
using Eater   = int[];
constexpr auto kNone = std::numeric_limits<std::size_t>::max();

void done(std::uint64_t a, std::uint64_t b)
{
    Hasher h;
    h.u64(a);
    h.u64(b);
    outcome(h.key());
}
// ------------------------------------------------------------------------------------------ swappable
template <int MC, int MA>  // 0 deleted, 1 noexcept, 2 may throw
struct Movable;
#define MC0(X) X(X&&) = delete;
#define MC1(X) X(X&&) noexcept {}
#define MC2(X) X(X&&) {}
#define MA0(X) X& operator=(X&&) = delete;
#define MA1(X) X& operator=(X&&) noexcept { return *this; }
#define MA2(X) X& operator=(X&&) { return *this; }
#define MOV(a, b)        \
    template <>          \
    struct Movable<a, b> \
    {                    \
        MC##a(Movable) MA##b(Movable) \
    };
MOV(0, 0)
MOV(0, 1)
MOV(0, 2)
MOV(1, 0)
MOV(1, 1)
MOV(1, 2)
MOV(2, 0)
MOV(2, 1)
MOV(2, 2)
struct OwnSafe
{
    OwnSafe(OwnSafe&&) = delete;
};
void swap(OwnSafe&, OwnSafe&) noexcept {}
struct OwnThrowing
{};
void swap(OwnThrowing&, OwnThrowing&) {}
struct OwnDeleted
{};
void swap(OwnDeleted&, OwnDeleted&) = delete;
struct Hidden
{
    Hidden(Hidden&&) = delete;
    friend void swap(Hidden&, Hidden&) noexcept {}
};
struct ByConst  // a proxy
{};
void swap(const ByConst&, const ByConst&) noexcept {}
struct FromBase : OwnSafe
{};
struct Member  // only a member
{
    Member(Member&&) = delete;
    void swap(Member&) noexcept {}
};
struct Returns
{
    Returns(Returns&&) = delete;
};
int swap(Returns&, Returns&) noexcept { return 0; }
struct Incomplete;
enum class Scoped
{
    a
};
template <typename T>
void swappable(const char* name, bool can, bool safe)
{
    note("swap of %s", name);
    MC_CHECK(pf::is_swappable<T>::value == can && pf::is_swappable_v<T> == can, "is_swappable<%s> is %d", name, pf::is_swappable<T>::value);
    MC_CHECK(pf::is_nothrow_swappable<T>::value == safe && pf::is_nothrow_swappable_v<T> == safe, "is_nothrow_swappable<%s> is %d", name, pf::is_nothrow_swappable<T>::value);
    MC_CHECK((std::is_base_of<std::integral_constant<bool, pf::is_swappable_v<T>>, pf::is_swappable<T>>::value), "is_swappable<%s> is not a boolean constant", name);
    MC_CHECK((std::is_base_of<std::integral_constant<bool, pf::is_nothrow_swappable_v<T>>, pf::is_nothrow_swappable<T>>::value), "is_nothrow_swappable<%s> is not a boolean constant", name);
#if __cplusplus >= 201703L
    MC_CHECK(std::is_swappable_v<T> == can && std::is_nothrow_swappable_v<T> == safe, "%s: the harness expects something else than the standard", name);
#endif
    Hasher h;
    h.bytes(name, std::strlen(name));
    outcome(h.key());
}
#define SW(can, safe, ...) [] { swappable<__VA_ARGS__>(#__VA_ARGS__, can, safe); }
void swappables()
{
    static void (*const all[])() = {
        SW(true, true, int), SW(true, true, int*), SW(true, true, Scoped), SW(false, false, const int), SW(false, false, void), SW(false, false, const void), SW(true, true, int&),
        SW(true, true, int&&), SW(false, false, const int&), SW(true, true, int[3]), SW(true, true, int[2][3]), SW(false, false, const int[3]), SW(false, false, int[]), SW(false, false, void()),
        SW(true, true, void (*)()), SW(false, false, void (&)()), SW(true, true, volatile int), SW(true, true, std::string), SW(true, true, std::nullptr_t), SW(false, false, void() const),
        SW(false, false, Movable<0, 0>), SW(false, false, Movable<0, 1>), SW(false, false, Movable<0, 2>), SW(false, false, Movable<1, 0>), SW(true, true, Movable<1, 1>), SW(true, false, Movable<1, 2>),
        SW(false, false, Movable<2, 0>), SW(true, false, Movable<2, 1>), SW(true, false, Movable<2, 2>), SW(true, false, Movable<2, 2>&), SW(false, false, const Movable<1, 1>),
        SW(true, false, Movable<1, 2>[2]), SW(true, true, Movable<1, 1>[2]), SW(false, false, Movable<0, 1>[2]), SW(true, true, OwnSafe), SW(true, false, OwnThrowing), SW(false, false, OwnDeleted),
        SW(true, true, Hidden), SW(true, true, ByConst), SW(true, true, const ByConst), SW(true, true, FromBase), SW(false, false, Member), SW(true, true, Returns), SW(true, true, OwnSafe[2]),
        SW(true, false, OwnThrowing[2]), SW(true, true, std::pair<int, int>), SW(true, false, std::pair<int, OwnThrowing>), SW(true, true, std::tuple<int, char>), SW(true, true, std::array<int, 2>)};
    all[choose(sizeof all / sizeof *all)]();
}
// ------------------------------------------------------------------------------------------ logic
template <typename T>
struct Wrong  // must not be looked into
{
    static_assert(sizeof(T) == 0, "instantiated without need");
    static constexpr bool value = true;
};
struct Tag : std::true_type
{};
struct Bare
{
    static constexpr int value = 3;
};
template <int I>
struct logic;
#define LOGIC(i, ...)             \
    template <>                   \
    struct logic<i>               \
    {                             \
        using type = __VA_ARGS__; \
    };
LOGIC(0, std::true_type)
LOGIC(1, std::false_type)
LOGIC(2, std::integral_constant<int, 2>)
LOGIC(3, std::integral_constant<long, 0>)
LOGIC(4, Tag)
LOGIC(5, Bare)
constexpr int kLogic = 6;
template <typename... Ts>
struct List
{};
/// The deciding type.
template <bool Decides, typename Empty, typename... Ts>
struct decider
{
    using type = Empty;
};
template <bool Decides, typename Empty, typename T>
struct decider<Decides, Empty, T>
{
    using type = T;
};
template <bool Decides, typename Empty, typename T, typename U, typename... Ts>
struct decider<Decides, Empty, T, U, Ts...>
{
    using type = typename std::conditional_t<static_cast<bool>(T::value) == Decides, decider<Decides, Empty, T>, decider<Decides, Empty, U, Ts...>>::type;
};
template <int... Is>
void logic_list()
{
    using C = pf::conjunction<typename logic<Is>::type...>;
    using D = pf::disjunction<typename logic<Is>::type...>;
    using EC = typename decider<false, std::true_type, typename logic<Is>::type...>::type;
    using ED = typename decider<true, std::false_type, typename logic<Is>::type...>::type;
    std::uint64_t k = 1;
    (void) Eater{0, (k = k * 7 + Is, 0)...};
    note("list %llo of %zu", static_cast<unsigned long long>(k), sizeof...(Is));
    MC_CHECK((std::is_base_of<EC, C>::value), "conjunction of %zu is not derived from the deciding type", sizeof...(Is));
    MC_CHECK((std::is_base_of<ED, D>::value), "disjunction of %zu is not derived from the deciding type", sizeof...(Is));
    MC_CHECK(C::value == EC::value && D::value == ED::value, "conjunction or disjunction have another value");
    bool all = true, any = false;
    (void) Eater{0, (all = all && logic<Is>::type::value, any = any || logic<Is>::type::value, 0)...};
    MC_CHECK(static_cast<bool>(C::value) == all && (pf::conjunction_v<typename logic<Is>::type...>) == all, "conjunction of %zu is wrong", sizeof...(Is));
    MC_CHECK(static_cast<bool>(D::value) == any && (pf::disjunction_v<typename logic<Is>::type...>) == any, "disjunction of %zu is wrong", sizeof...(Is));
    MC_CHECK((std::is_same<pf::void_t<typename logic<Is>::type...>, void>::value), "void_t is not void");
#if __cplusplus >= 201703L
    using SC = std::conjunction<typename logic<Is>::type...>;
    using SD = std::disjunction<typename logic<Is>::type...>;
    MC_CHECK(SC::value == C::value && SD::value == D::value, "another value than in the standard");
    MC_CHECK((std::is_base_of<EC, SC>::value && std::is_base_of<ED, SD>::value), "the harness expects something else than the standard");
#endif
    done(k, sizeof...(Is));
}
template <int... Is>
void logic_lists(std::integral_constant<int, 0>)
{
    logic_list<Is...>();
}
template <int... Is, int N>
void logic_lists(std::integral_constant<int, N>)
{
    switch (choose(kLogic + 1))
    {
    case 0: logic_lists<Is..., 0>(std::integral_constant<int, N - 1>{}); break;
    case 1: logic_lists<Is..., 1>(std::integral_constant<int, N - 1>{}); break;
    case 2: logic_lists<Is..., 2>(std::integral_constant<int, N - 1>{}); break;
    case 3: logic_lists<Is..., 3>(std::integral_constant<int, N - 1>{}); break;
    case 4: logic_lists<Is..., 4>(std::integral_constant<int, N - 1>{}); break;
    case 5: logic_lists<Is..., 5>(std::integral_constant<int, N - 1>{}); break;
    default: logic_list<Is...>(); break;
    }
}
void logics() { logic_lists<>(std::integral_constant<int, 3>{}); }
void lazy()
{
    // What comes after the decision is not looked into.
    MC_CHECK((!pf::conjunction<std::false_type, Wrong<int>>::value && !pf::conjunction<std::true_type, std::false_type, Wrong<int>, Wrong<char>>::value), "conjunction");
    MC_CHECK((pf::disjunction<std::true_type, Wrong<int>>::value && pf::disjunction<std::false_type, std::true_type, Wrong<int>, Wrong<char>>::value), "disjunction");
    MC_CHECK((!pf::conjunction_v<std::false_type, Wrong<int>> && pf::disjunction_v<std::true_type, Wrong<int>>), "values");
    MC_CHECK((pf::negation<std::false_type>::value && !pf::negation<std::true_type>::value && !pf::negation<Bare>::value && pf::negation<std::integral_constant<int, 0>>::value), "negation");
    MC_CHECK((!pf::negation_v<std::integral_constant<int, 2>> && pf::negation_v<std::integral_constant<long, 0>>), "negation_v");
    MC_CHECK((std::is_base_of<std::true_type, pf::negation<std::false_type>>::value && std::is_base_of<std::false_type, pf::negation<Bare>>::value), "negation is not a boolean constant");
    MC_CHECK((std::is_same<pf::void_t<>, void>::value && std::is_same<pf::void_t<int, char>, void>::value), "void_t");
    done(1, 1);
}
// ------------------------------------------------------------------------------------------ lists
template <int I>
struct item;
#define ITEM(i, ...)              \
    template <>                   \
    struct item<i>                \
    {                             \
        using type = __VA_ARGS__; \
    };
ITEM(0, int)
ITEM(1, double)
ITEM(2, char)
ITEM(3, void)
ITEM(4, const int)
template <typename T>
struct SizeOf4
{
    static constexpr bool value = sizeof(T) == 4;
};
template <>
struct SizeOf4<void>
{
    static constexpr bool value = false;
};
template <typename... Ts>
struct Two;  // binary, for partial application
template <typename A, typename B>
struct Two<A, B> : std::is_same<A, B>
{};
template <typename... Ts>
struct Three;
template <typename A, typename B, typename C>
struct Three<A, B, C> : std::integral_constant<bool, std::is_same<A, C>::value || std::is_same<B, C>::value>
{};
template <typename... Ts>
struct NumberBox
{
    static constexpr int value = std::is_same<std::tuple<Ts...>, std::tuple<int>>::value ? 2 : 0;  // not a bool
};
template <template <typename...> class P, int... Is>
void find_with(const char* what)
{
    std::size_t first = kNone, count = 0, i = 0;
    (void) Eater{0, ((P<typename item<Is>::type>::value ? (first = first == kNone ? i : first, count++) : 0), i++, 0)...};
    MC_CHECK((ext::find<P, typename item<Is>::type...>::value) == first && (ext::find_v<P, typename item<Is>::type...>) == first, "find %s: %zu, %zu expected", what,
             ext::find_v<P, typename item<Is>::type...>, first);
    MC_CHECK((ext::count<P, typename item<Is>::type...>::value) == count && (ext::count_v<P, typename item<Is>::type...>) == count, "count %s: %zu, %zu expected", what,
             ext::count_v<P, typename item<Is>::type...>, count);
}
template <int... Is>
void item_list()
{
    std::uint64_t k = 1;
    (void) Eater{0, (k = k * 8 + Is, 0)...};
    note("list %llo of %zu", static_cast<unsigned long long>(k), sizeof...(Is));
    find_with<std::is_integral, Is...>("integral");
    find_with<SizeOf4, Is...>("of 4 bytes");
    find_with<NumberBox, Is...>("by a number");
    find_with<ext::universal_predicate, Is...>("any");
    find_with<ext::partial<std::is_same, int>::template type, Is...>("int");
    find_with<ext::partial<Two, const int>::template type, Is...>("const int");
    find_with<ext::partial<Three, void, char>::template type, Is...>("void or char");
    MC_CHECK((ext::universal_predicate<typename item<Is>::type...>::value), "universal_predicate");
    MC_CHECK((std::is_same<typename ext::partial<List, typename item<Is>::type...>::template type<int, void>, List<typename item<Is>::type..., int, void>>::value), "partial");
    MC_CHECK((std::is_same<typename ext::partial<List>::template type<typename item<Is>::type...>, List<typename item<Is>::type...>>::value), "partial without arguments");
    done(k, 100 + sizeof...(Is));
}
template <int... Is>
void item_lists(std::integral_constant<int, 0>)
{
    item_list<Is...>();
}
template <int... Is, int N>
void item_lists(std::integral_constant<int, N>)
{
    switch (choose(6))
    {
    case 0: item_lists<Is..., 0>(std::integral_constant<int, N - 1>{}); break;
    case 1: item_lists<Is..., 1>(std::integral_constant<int, N - 1>{}); break;
    case 2: item_lists<Is..., 2>(std::integral_constant<int, N - 1>{}); break;
    case 3: item_lists<Is..., 3>(std::integral_constant<int, N - 1>{}); break;
    case 4: item_lists<Is..., 4>(std::integral_constant<int, N - 1>{}); break;
    default: item_list<Is...>(); break;
    }
}
void lists() { item_lists<>(std::integral_constant<int, 4>{}); }
// ------------------------------------------------------------------------------------------ narrowing
enum Plain
{
    kPlain
};
enum Small : unsigned char
{
    kSmall
};
struct FromInt
{
    FromInt(int);
};
struct FromBoolRef
{
    FromBoolRef(const bool&);
};
struct Explicit
{
    explicit Explicit(int);
};
struct ToInt
{
    operator int() const;
};
struct Pair
{
    int a, b;
};
struct Pinned
{
    Pinned(int);
    Pinned(Pinned&&) = delete;
};
struct Base
{};
struct Derived : Base
{};
template <int I>
struct num;
#define NUM(i, ...)               \
    template <>                   \
    struct num<i>                 \
    {                             \
        using type = __VA_ARGS__; \
    };
NUM(0, bool)
NUM(1, char)
NUM(2, signed char)
NUM(3, unsigned char)
NUM(4, short)
NUM(5, unsigned short)
NUM(6, int)
NUM(7, unsigned)
NUM(8, long)
NUM(9, unsigned long)
NUM(10, long long)
NUM(11, unsigned long long)
NUM(12, float)
NUM(13, double)
NUM(14, long double)
NUM(15, wchar_t)
NUM(16, char16_t)
NUM(17, char32_t)
NUM(18, Plain)
NUM(19, Small)
NUM(20, Scoped)
NUM(21, int*)
NUM(22, void*)
NUM(23, std::nullptr_t)
NUM(24, const char*)
NUM(25, FromInt)
NUM(26, FromBoolRef)
NUM(27, Explicit)
NUM(28, ToInt)
NUM(29, Pair)
NUM(30, Pinned)
NUM(31, std::string)
NUM(32, Base)
NUM(33, Derived)
constexpr int kNums = 34, kArith = 18;
template <typename T>
using Array = T[1];
template <typename From, typename To, typename = void>
struct direct : std::false_type
{};
template <typename From, typename To>
struct direct<From, To, decltype(void(Array<To>{{std::declval<From>()}}))> : std::true_type
{};
/// By the definition of narrowing, for arithmetic types and values not known in advance.
template <typename From, typename To>
bool narrows()
{
    using F = std::numeric_limits<From>;
    using T = std::numeric_limits<To>;
    if (std::is_same<From, To>::value)
        return false;
    if (std::is_floating_point<From>::value)
        return !std::is_floating_point<To>::value || sizeof(From) > sizeof(To);
    if (std::is_floating_point<To>::value)
        return true;
    return F::digits > T::digits || (F::is_signed && !T::is_signed);
}
template <int F, int T>
void narrowing_of()
{
    using From = typename num<F>::type;
    using To   = typename num<T>::type;
    note("types %d to %d", F, T);
    MC_CHECK((ext::is_convertible_without_narrowing<From, To>::value == direct<From, To>::value), "conversion of type %d to %d is%s said to be possible", F, T,
             direct<From, To>::value ? " not" : "");
    MC_CHECK((ext::is_convertible_without_narrowing<const From&, To>::value == direct<const From&, To>::value), "conversion of const lvalues of type %d to %d is%s said to be possible", F, T,
             direct<const From&, To>::value ? " not" : "");
    MC_CHECK((ext::is_convertible_without_narrowing<From&, To>::value == direct<From&, To>::value), "conversion of lvalues of type %d to %d is%s said to be possible", F, T,
             direct<From&, To>::value ? " not" : "");
    if (F < kArith && T < kArith)
    {
        MC_CHECK((ext::is_convertible_without_narrowing<From, To>::value == !narrows<std::conditional_t<F<kArith, From, int>, std::conditional_t<T<kArith, To, int>>()), "conversion of type %d to %d: wrong by the rule", F, T);
    }
    done(F * 100 + T, 5);
}
template <int F, int... Ts>
void narrowing_to(std::integer_sequence<int, Ts...>)
{
    const int t = static_cast<int>(choose(sizeof...(Ts)));
    (void) Eater{(t == Ts ? narrowing_of<F, Ts>() : void(), 0)...};
}
template <int... Fs>
void narrowing(std::integer_sequence<int, Fs...> s)
{
    const int f = static_cast<int>(choose(sizeof...(Fs)));
    (void) Eater{(f == Fs ? narrowing_to<Fs>(s) : void(), 0)...};
}
// ------------------------------------------------------------------------------------------ best conversion
template <bool Viable, int I, typename T>
struct Function
{
    void f(Function) const;
};
template <int I, typename T>
struct Function<true, I, T>
{
    std::integral_constant<std::size_t, I> f(T) const;
};
template <typename... Fs>
struct Functions;
template <typename A>
struct Functions<A> : A
{
    using A::f;
};
template <typename A, typename B>
struct Functions<A, B> : A, B
{
    using A::f;
    using B::f;
};
template <typename A, typename B, typename C>
struct Functions<A, B, C> : A, B, C
{
    using A::f;
    using B::f;
    using C::f;
};
template <typename Fs, typename U, typename = void>
struct selected : std::integral_constant<std::size_t, kNone>
{};
template <typename Fs, typename U>
struct selected<Fs, U, decltype(void(decltype(std::declval<const Fs&>().f(std::declval<U>()))::value))> : decltype(std::declval<const Fs&>().f(std::declval<U>()))
{};
template <template <typename...> class P, typename Is, typename U, typename... Ts>
struct expected;
template <template <typename...> class P, int... Is, typename U, typename... Ts>
struct expected<P, std::integer_sequence<int, Is...>, U, Ts...> : selected<Functions<Function<static_cast<bool>(P<Ts>::value), Is, Ts>...>, U>
{};
template <int I>
struct conv;
#define CONV(i, ...)              \
    template <>                   \
    struct conv<i>                \
    {                             \
        using type = __VA_ARGS__; \
    };
CONV(0, int)
CONV(1, double)
CONV(2, bool)
CONV(3, const char*)
CONV(4, FromInt)
CONV(5, Base)
CONV(6, Derived)
CONV(7, long)
CONV(8, ToInt)
CONV(9, const int)
constexpr int kConv = 10;
template <typename From>
struct Directly
{
    template <typename... To>
    struct type : direct<From, To...>
    {};
};
template <int F, int... Ts>
void best_of(const char* what)
{
    using From = typename conv<F>::type;
#define BEST(P, ...)                                                                                                                                                             \
    MC_CHECK((ext::best_conversion_index_v<P, __VA_ARGS__, typename conv<Ts>::type...>) == (expected<P, std::make_integer_sequence<int, sizeof...(Ts)>, __VA_ARGS__, typename conv<Ts>::type...>::value), \
             "best conversion of type %d (" #__VA_ARGS__ ", " #P ") is %zu, %zu expected", F, (ext::best_conversion_index_v<P, __VA_ARGS__, typename conv<Ts>::type...>),        \
             static_cast<std::size_t>(expected<P, std::make_integer_sequence<int, sizeof...(Ts)>, __VA_ARGS__, typename conv<Ts>::type...>::value))
    BEST(ext::universal_predicate, From);
    BEST(ext::universal_predicate, const From&);
    BEST(std::is_arithmetic, From);
    BEST(std::is_class, From&);
    BEST(Directly<From>::template type, From);
    (void) what;
    std::uint64_t k = F;
    (void) Eater{0, (k = k * 16 + Ts, 0)...};
    done(k, 9 + sizeof...(Ts));
}
template <int A, int B, int... Cs>
void best_c(std::integer_sequence<int, Cs...>)
{
    const int c = static_cast<int>(choose(sizeof...(Cs)));
    const int f = static_cast<int>(choose(5));
    (void) Eater{(c == Cs ? (f == 0   ? best_of<0, A, B, Cs>("")
                             : f == 1 ? best_of<2, A, B, Cs>("")
                             : f == 2 ? best_of<6, A, B, Cs>("")
                             : f == 3 ? best_of<8, A, B, Cs>("")
                                      : best_of<1, A, B, Cs>(""))
                          : void(),
                  0)...};
}
template <int A, int... Bs>
void best_b(std::integer_sequence<int, Bs...> all)
{
    const int b = static_cast<int>(choose(sizeof...(Bs)));
    (void) Eater{(b == Bs ? best_c<A, Bs>(std::make_integer_sequence<int, 7>{}) : void(), 0)...};
}
template <int F, int A, int... Bs>
void best_pair(std::integer_sequence<int, Bs...>)
{
    const int b = static_cast<int>(choose(sizeof...(Bs) + 1));
    if (b == sizeof...(Bs))
        best_of<F, A>("");
    (void) Eater{(b == Bs ? best_of<F, A, Bs>("") : void(), 0)...};
}
template <int F, int... As>
void best_first(std::integer_sequence<int, As...> all)
{
    const int a = static_cast<int>(choose(sizeof...(As)));
    (void) Eater{(a == As ? best_pair<F, As>(all) : void(), 0)...};
}
template <int... Fs>
void best(std::integer_sequence<int, Fs...> all)
{
    const int f = static_cast<int>(choose(sizeof...(Fs)));
    (void) Eater{(f == Fs ? best_first<Fs>(all) : void(), 0)...};
}
template <int... As>
void best_triples(std::integer_sequence<int, As...> all)
{
    const int a = static_cast<int>(choose(sizeof...(As)));
    (void) Eater{(a == As ? best_b<As>(all) : void(), 0)...};
}
// ------------------------------------------------------------------------------------------ tags
template <typename T>
void take(T);
template <typename T, typename = void>
struct from_braces : std::false_type
{};
template <typename T>
struct from_braces<T, decltype(take<T>({}))> : std::true_type
{};
void tags()
{
    MC_CHECK((std::is_same<decltype(pf::in_place), const pf::in_place_t>::value && std::is_same<decltype(pf::in_place_type<int>), const pf::in_place_type_t<int>>::value &&
              std::is_same<decltype(pf::in_place_index<3>), const pf::in_place_index_t<3>>::value),
             "types of the tags");
    MC_CHECK((std::is_default_constructible<pf::in_place_t>::value && std::is_default_constructible<pf::in_place_type_t<int>>::value && std::is_default_constructible<pf::in_place_index_t<0>>::value),
             "tags can be made");
    MC_CHECK((!from_braces<pf::in_place_t>::value && !from_braces<pf::in_place_type_t<int>>::value && !from_braces<pf::in_place_index_t<0>>::value), "tags are made implicitly of {}");
    MC_CHECK((!std::is_same<pf::in_place_type_t<int>, pf::in_place_type_t<const int>>::value && !std::is_same<pf::in_place_index_t<0>, pf::in_place_index_t<1>>::value), "tags differ");
    MC_CHECK((std::is_trivially_copyable<pf::in_place_t>::value && std::is_empty<pf::in_place_t>::value), "tags are empty");
    done(7, 7);
}
// ------------------------------------------------------------------------------------------ alternatives
template <std::size_t I, typename V, typename T>
void alternative(int n)
{
    MC_CHECK((std::is_same<pf::variant_alternative_t<I, V>, T>::value && std::is_same<typename pf::variant_alternative<I, V>::type, T>::value), "alternative %zu of %d", I, n);
    MC_CHECK((std::is_same<pf::variant_alternative_t<I, const V>, const T>::value && std::is_same<typename pf::variant_alternative<I, const V>::type, const T>::value),
             "alternative %zu of a const variant of %d", I, n);
    using pf::get;
    using pf::get_if;
    MC_CHECK((std::is_same<decltype(get<I>(std::declval<V&>())), T&>::value && std::is_same<decltype(get<I>(std::declval<const V&>())), const T&>::value &&
              std::is_same<decltype(get<I>(std::declval<V>())), T&&>::value && std::is_same<decltype(get<I>(std::declval<const V>())), const T&&>::value),
             "access to alternative %zu of %d", I, n);
    MC_CHECK((std::is_same<decltype(get_if<I>(std::declval<V*>())), T*>::value && std::is_same<decltype(get_if<I>(std::declval<const V*>())), const T*>::value), "pointer to alternative %zu of %d", I, n);
    done(I + 11, static_cast<std::uint64_t>(n));
}
template <typename... Ts, std::size_t... Is>
void alternatives_of(std::index_sequence<Is...>)
{
    using V         = pf::variant<Ts...>;
    constexpr int n = sizeof...(Ts);
    MC_CHECK((pf::variant_size<V>::value == n && pf::variant_size<const V>::value == n && pf::variant_size_v<V> == n && pf::variant_size_v<const V> == n), "size of a variant of %d", n);
    (void) Eater{(alternative<Is, V, std::tuple_element_t<Is, std::tuple<Ts...>>>(n), 0)...};
}
template <typename... Ts>
void alternatives_of()
{
    note("%d alternatives", static_cast<int>(sizeof...(Ts)));
    alternatives_of<Ts...>(std::make_index_sequence<sizeof...(Ts)>{});
}
void alternatives()
{
    alternatives_of<int>();
    alternatives_of<const int>();
    alternatives_of<int, const int>();
    alternatives_of<int, int>();
    alternatives_of<pf::monostate, std::string, void*>();
    alternatives_of<const char*, int, const char*, std::string, const std::string, double, char, long>();
    MC_CHECK(pf::variant_npos == kNone, "variant_npos");
}
#if PART == 0
MC_SCENARIO("alternatives", 1, 0, 1, 0, &alternatives);
MC_SCENARIO("swappable", 1, 0, 1, 0, &swappables);
MC_SCENARIO("logic", 1, 0, 1, 0, &logics);
MC_SCENARIO("lazy", 1, 0, 1, 0, &lazy);
MC_SCENARIO("tags", 1, 0, 1, 0, &tags);
#elif PART == 1
MC_SCENARIO("lists", 1, 0, 1, 0, &lists);
#elif PART == 2
MC_SCENARIO("narrowing", 1, 0, 1, 0, ([] { narrowing(std::make_integer_sequence<int, kNums>{}); }));
#elif PART == 3
MC_SCENARIO("best", 1, 0, 1, 0, ([] { best(std::make_integer_sequence<int, kConv>{}); }));
#else
MC_SCENARIO("best-triples", 1, 0, 1, 0, ([] { best_triples(std::make_integer_sequence<int, 7>{}); }));
#endif
}  // namespace
