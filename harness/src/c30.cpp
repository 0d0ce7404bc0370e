// C30: the special members of optionals and variants, for all profiles of the special members of the contained types,
// compared with the rules of the standard spelt out and with the standard optional and variant.
#define MC_MAIN
#include "../resource.hpp"

#include <cetl/pf17/optional.hpp>
#include <cetl/pf17/variant.hpp>

#if __cplusplus >= 201703L
#    include <optional>
#    include <variant>
#endif

using namespace mc;
namespace
{
// Copying: 0 deleted, 1 trivial, 2 not trivial, 3 may throw. Moving: also 4, not declared. Destruction: 0 trivial, 1 not trivial.
template <int CC, int MC, int CA, int MA, int D>
struct Profile;
#define CC0 Profile(const Profile&) = delete;
#define CC1 Profile(const Profile&) = default;
#define CC2 Profile(const Profile&) noexcept {}
#define CC3 Profile(const Profile&) {}
#define MC0 Profile(Profile&&) = delete;
#define MC1 Profile(Profile&&) = default;
#define MC2 Profile(Profile&&) noexcept {}
#define MC3 Profile(Profile&&) {}
#define MC4
#define CA0 Profile& operator=(const Profile&) = delete;
#define CA1 Profile& operator=(const Profile&) = default;
#define CA2 Profile& operator=(const Profile&) noexcept { return *this; }
#define CA3 Profile& operator=(const Profile&) { return *this; }
#define MA0 Profile& operator=(Profile&&) = delete;
#define MA1 Profile& operator=(Profile&&) = default;
#define MA2 Profile& operator=(Profile&&) noexcept { return *this; }
#define MA3 Profile& operator=(Profile&&) { return *this; }
#define MA4
#define D0
#define D1 ~Profile() {}
#define P5(a, b, c, d, e)        \
    template <>                  \
    struct Profile<a, b, c, d, e> \
    {                            \
        Profile() = default;     \
        CC##a MC##b CA##c MA##d D##e \
    };
#define P4(a, b, c, d) P5(a, b, c, d, 0) P5(a, b, c, d, 1)
#define P3(a, b, c) P4(a, b, c, 0) P4(a, b, c, 1) P4(a, b, c, 2) P4(a, b, c, 3) P4(a, b, c, 4)
#define P2(a, b) P3(a, b, 0) P3(a, b, 1) P3(a, b, 2) P3(a, b, 3)
#define P1(a) P2(a, 0) P2(a, 1) P2(a, 2) P2(a, 3) P2(a, 4)
P1(0)
P1(1)
P1(2)
P1(3)

/// With a swap of its own, which may throw or not, whatever the special members do.
template <typename P, bool Safe>
struct Swapped : P
{
    friend void swap(Swapped&, Swapped&) noexcept(Safe) {}
};

enum Fact : unsigned
{
    kCopy,
    kTrivialCopy,
    kMove,
    kTrivialMove,
    kSafeMove,
    kCopyAssign,
    kTrivialCopyAssign,
    kMoveAssign,
    kTrivialMoveAssign,
    kSafeMoveAssign,
    kTrivialDtor,
    kSwap,
    kSafeSwap,
    kSafeMemberSwap,
    kFacts
};
const char* const facts[] = {"copy construction",    "trivial copy construction", "move construction",       "trivial move construction", "noexcept move construction", "copy assignment", "trivial copy assignment",
                             "move assignment",      "trivial move assignment",   "noexcept move assignment", "trivial destruction",       "swap",                       "noexcept swap", "noexcept member swap"};
namespace swaps
{
using std::swap;
template <typename T, typename = void>
struct can : std::false_type
{
    static constexpr bool safe = false;
};
template <typename T>
struct can<T, decltype(void(swap(std::declval<T&>(), std::declval<T&>())))> : std::true_type
{
    static constexpr bool safe = noexcept(swap(std::declval<T&>(), std::declval<T&>()));
};
}  // namespace swaps
template <typename W>
struct member_swap : std::integral_constant<bool, noexcept(std::declval<W&>().swap(std::declval<W&>()))>
{};
template <typename T>
struct own_swap : std::false_type
{};
template <typename P, bool Safe>
struct own_swap<Swapped<P, Safe>> : std::true_type
{};
using Facts = unsigned;
constexpr Facts fact(Fact f, bool b) { return static_cast<unsigned>(b) << f; }
template <typename W>
constexpr Facts facts_of()
{
    return fact(kCopy, std::is_copy_constructible<W>::value) | fact(kTrivialCopy, std::is_trivially_copy_constructible<W>::value) | fact(kMove, std::is_move_constructible<W>::value) |
           fact(kTrivialMove, std::is_trivially_move_constructible<W>::value) | fact(kSafeMove, std::is_nothrow_move_constructible<W>::value) |
           fact(kCopyAssign, std::is_copy_assignable<W>::value) | fact(kTrivialCopyAssign, std::is_trivially_copy_assignable<W>::value) | fact(kMoveAssign, std::is_move_assignable<W>::value) |
           fact(kTrivialMoveAssign, std::is_trivially_move_assignable<W>::value) | fact(kSafeMoveAssign, std::is_nothrow_move_assignable<W>::value) |
           fact(kTrivialDtor, std::is_trivially_destructible<W>::value) | fact(kSwap, swaps::can<W>::value) | fact(kSafeSwap, swaps::can<W>::safe) |
           fact(kSafeMemberSwap, member_swap<W>::value);
}
constexpr bool all(std::initializer_list<bool> bs)
{
    for (const bool b : bs)
        if (!b)
            return false;
    return true;
}
constexpr bool any(std::initializer_list<bool> bs)
{
    for (const bool b : bs)
        if (b)
            return true;
    return false;
}
#define ALL(...) all({__VA_ARGS__...})
/// The rules, which are the same for the optional and for the variant. If the moving member is left out, the copying one takes its place.
/// The standard does not say whether the copying ones are noexcept, so neither is it said for moves by copying.
template <typename... Ts>
constexpr Facts rule(bool& exact_safe_move, bool& exact_safe_assign, bool& exact_swap)
{
    const bool cc  = ALL(std::is_copy_constructible<Ts>::value);
    const bool tcc = ALL(std::is_trivially_copy_constructible<Ts>::value);
    const bool mc  = ALL(std::is_move_constructible<Ts>::value);
    const bool tmc = ALL(std::is_trivially_move_constructible<Ts>::value);
    const bool nmc = ALL(std::is_nothrow_move_constructible<Ts>::value);
    const bool ca  = cc && ALL(std::is_copy_assignable<Ts>::value);
    const bool td  = ALL(std::is_trivially_destructible<Ts>::value);
    const bool tca = tcc && td && ALL(std::is_trivially_copy_assignable<Ts>::value);
    const bool ma  = mc && ALL(std::is_move_assignable<Ts>::value);
    const bool tma = tmc && td && ALL(std::is_trivially_move_assignable<Ts>::value);
    const bool nma = nmc && ALL(std::is_nothrow_move_assignable<Ts>::value);
    const bool sw  = mc && ALL(swaps::can<Ts>::value);
    const bool nsw = nmc && ALL(swaps::can<Ts>::safe);
    exact_safe_move   = mc || !cc;
    exact_safe_assign = ma || !ca;
    // std::swap moves the whole wrapper if the specific function is not available, which goes without the swaps of the values.
    const bool whole = (mc || cc) && (ma || ca);
    exact_swap       = (sw || !whole) && !any({own_swap<Ts>::value...});
    return fact(kCopy, cc) | fact(kTrivialCopy, cc && tcc) | fact(kMove, mc || cc) | fact(kTrivialMove, mc ? tmc : (cc && tcc)) | fact(kSafeMove, mc && nmc) | fact(kCopyAssign, ca) |
           fact(kTrivialCopyAssign, ca && tca) | fact(kMoveAssign, ma || ca) | fact(kTrivialMoveAssign, ma ? tma : (ca && tca)) | fact(kSafeMoveAssign, ma && nma) | fact(kTrivialDtor, td) |
           fact(kSwap, sw) | fact(kSafeSwap, sw && nsw) | fact(kSafeMemberSwap, sw && nsw);
}
template <typename... Ts>
void judge(const char* wrapper, const char* types, Facts is, Facts std_is)
{
    bool        exact_move = true, exact_assign = true, exact_swap = true;
    const Facts must = rule<Ts...>(exact_move, exact_assign, exact_swap);
    unsigned    mask = (1U << kFacts) - 1;
    if (!exact_move)
        mask &= ~(1U << kSafeMove);
    if (!exact_assign)
        mask &= ~(1U << kSafeMoveAssign);
    if (!exact_swap)
        mask &= ~((1U << kSwap) | (1U << kSafeSwap));
    if (!(must >> kSwap & 1))  // nor may the member be called
        mask &= ~(1U << kSafeMemberSwap);
    note("%s of %s", wrapper, types);
    for (unsigned f = 0; f < kFacts; f++)
    {
        if (!(mask >> f & 1))
            continue;
        const bool a = is >> f & 1, b = must >> f & 1, c = std_is >> f & 1;
        MC_CHECK(a == b, "%s of %s: %s is %savailable, unlike the rule", wrapper, types, facts[f], a ? "" : "not ");
        MC_CHECK(a == c, "%s of %s: %s is %savailable, unlike that of the standard one", wrapper, types, facts[f], a ? "" : "not ");
    }
    Hasher h;
    h.bytes(types, std::strlen(types));
    h.bytes(wrapper, std::strlen(wrapper));
    h.u64(is);
    outcome(h.key());
}
std::string name(std::initializer_list<int> v)
{
    static const char* const c[] = {"deleted", "trivial", "own", "throwing", "undeclared"};
    std::string              s;
    int                      k = 0;
    for (const int x : v)
    {
        static const char* const what[] = {"copy ", "move ", "copy= ", "move= ", "dtor "};
        s += (k ? ", " : "") + std::string(what[k]) + (k == 4 ? (x ? "own" : "trivial") : c[x]);
        k++;
    }
    return "{" + s + "}";
}
#if __cplusplus >= 201703L
#    define STD_FACTS(...) facts_of<__VA_ARGS__>()
#else
#    define STD_FACTS(...) 0
#endif
struct Entry
{
    void (*run)();
};
template <typename T>
struct Of;
template <int... Is>
struct Of<Profile<Is...>>
{
    static std::string name() { return ::name({Is...}); }
};
template <typename P, bool Safe>
struct Of<Swapped<P, Safe>>
{
    static std::string name() { return Of<P>::name() + (Safe ? " with a swap" : " with a throwing swap"); }
};
template <typename... Ts>
Facts std_variant_facts(bool& b1)
{
    bool a, b, c;
    (void) b1;
#if __cplusplus >= 201703L
    return facts_of<std::variant<Ts...>>();
#else
    return rule<Ts...>(a, b, c);
#endif
}
template <typename T>
Facts std_optional_facts()
{
    bool a, b, c;
#if __cplusplus >= 201703L
    return facts_of<std::optional<T>>();
#else
    return rule<T>(a, b, c);
#endif
}
template <typename... Ts>
void one_variant()
{
    bool        b;
    std::string n;
    for (const std::string& s : {Of<Ts>::name()...})
        n += (n.empty() ? "" : ", ") + s;
    judge<Ts...>("variant", n.c_str(), facts_of<cetl::pf17::variant<Ts...>>(), std_variant_facts<Ts...>(b));
}
template <typename T>
void one_optional()
{
    judge<T>("optional", Of<T>::name().c_str(), facts_of<cetl::pf17::optional<T>>(), std_optional_facts<T>());
}
template <int I>
using Nth = Profile<I / 200, I / 40 % 5, I / 10 % 4, I / 2 % 5, I % 2>;
// A class whose copying is trivial cannot do without moving and vice versa, but all combinations are legal.
template <int First, int... Is>
void singles(std::integer_sequence<int, Is...>)
{
    static void (*const os[])() = {&one_optional<Nth<First + Is>>...};
    static void (*const vs[])() = {&one_variant<Nth<First + Is>>...};
    const unsigned i = choose(sizeof...(Is));
    if (choose(2))
        os[i]();
    else
        vs[i]();
}
/// Representatives for combinations.
template <int I>
struct Rep;
#define REP(i, ...)                  \
    template <>                      \
    struct Rep<i>                    \
    {                                \
        using type = Profile<__VA_ARGS__>; \
    };
REP(0, 1, 1, 1, 1, 0)   // trivial
REP(1, 2, 2, 2, 2, 1)   // own
REP(2, 3, 3, 3, 3, 1)   // throwing
REP(3, 0, 2, 0, 2, 1)   // move only
REP(4, 0, 0, 0, 0, 1)   // immovable
REP(5, 1, 4, 0, 4, 0)   // copy construction only
REP(6, 2, 4, 2, 4, 0)   // copy only
REP(7, 0, 3, 0, 2, 0)   // move only, throwing construction
REP(8, 0, 1, 0, 1, 0)   // trivial, move only
REP(9, 1, 1, 2, 2, 0)   // trivial construction
REP(10, 2, 2, 1, 1, 0)  // trivial assignment
REP(11, 1, 1, 1, 1, 1)  // own destructor
REP(12, 0, 0, 1, 1, 0)  // assignment only
REP(13, 2, 0, 2, 0, 0)  // moves deleted
constexpr int kReps = 14;
template <int A, int... Bs>
void pairs(std::integer_sequence<int, Bs...>)
{
    static void (*const vs[])() = {&one_variant<typename Rep<A>::type, typename Rep<Bs>::type>...};
    vs[choose(sizeof...(Bs))]();
}
template <int... As>
void all_pairs(std::integer_sequence<int, As...> s)
{
    static void (*const vs[])() = {[](void) { pairs<As>(std::integer_sequence<int, 0, 1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11, 12, 13>{}); }...};
    vs[choose(sizeof...(As))]();
}
template <int A, int B, int... Cs>
void triples_c(std::integer_sequence<int, Cs...>)
{
    static void (*const vs[])() = {&one_variant<typename Rep<A>::type, typename Rep<B>::type, typename Rep<Cs>::type>...};
    vs[choose(sizeof...(Cs))]();
}
template <typename T, int... Bs>
void swapped_pairs(std::integer_sequence<int, Bs...>)
{
    static void (*const vs[])() = {&one_variant<T, typename Rep<Bs>::type>..., &one_variant<T, Swapped<typename Rep<Bs>::type, true>>..., &one_variant<T>, &one_optional<T>};
    vs[choose(sizeof(vs) / sizeof(vs[0]))]();
}
template <bool Safe, int... As>
void swapped(std::integer_sequence<int, As...> s)
{
    static void (*const vs[])() = {[] { swapped_pairs<Swapped<typename Rep<As>::type, Safe>>(std::integer_sequence<int, 0, 1, 2, 3, 7>{}); }...};
    vs[choose(sizeof...(As))]();
}
using Few = std::integer_sequence<int, 0, 1, 2, 3, 5, 8, 10>;
template <int A, int... Bs>
void triples_b(std::integer_sequence<int, Bs...>)
{
    static void (*const vs[])() = {[] { triples_c<A, Bs>(Few{}); }...};
    vs[choose(sizeof...(Bs))]();
}
template <int... As>
void triples(std::integer_sequence<int, As...>)
{
    static void (*const vs[])() = {[] { triples_b<As>(Few{}); }...};
    vs[choose(sizeof...(As))]();
}
#if PART < 8
MC_SCENARIO("singles", 1, 0, 1, 0, ([] { singles<PART * 100>(std::make_integer_sequence<int, 100>{}); }));
#elif PART == 8
MC_SCENARIO("pairs", 1, 0, 1, 0, ([] { all_pairs(std::make_integer_sequence<int, kReps>{}); }));
#elif PART == 9
MC_SCENARIO("own-swap", 1, 0, 1, 0, ([] { swapped<true>(std::make_integer_sequence<int, kReps>{}); }));
MC_SCENARIO("own-throwing-swap", 1, 0, 1, 0, ([] { swapped<false>(std::make_integer_sequence<int, kReps>{}); }));
#else
MC_SCENARIO("triples", 1, 0, 1, 0, ([] { triples(Few{}); }));
#endif
}  // namespace
