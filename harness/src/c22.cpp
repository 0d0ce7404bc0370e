// C22: a variant always holds exactly one expected alternative.
#define MC_MAIN
#include "fwd.hpp"
#include <string>
#include <tuple>
#include <typeinfo>
#include "var.hpp"

using namespace mc;
using namespace mc::var;
namespace
{
using E1 = Elem<kCopy | kSelf, 1>;
using E2 = Elem<kCopy | kBig, 2>;
using VW = V<Elem<kCopy | kSelf, 3>>;
using W0 = opt::W<0>;
#if PART == 0
MC_SCENARIO("int-and-elements", 6, 0, 10, 0, (&scenario<World<W0, 2, int, E1, VW>>));
MC_SCENARIO("trivial", 7, 0, 12, 0, (&scenario<World<void, 0, int, short, char>>));
MC_SCENARIO("bare", 6, 0, 10, 0, (&scenario<World<void, 0, int, Bare<kCopy, 1>, Bare<kCopy, 2>>>));
#elif PART == 1
MC_SCENARIO("duplicates", 6, 0, 10, 0, (&scenario<World<void, 0, E1, int, E1>>));
MC_SCENARIO("move-only", 7, 0, 12, 0, (&scenario<World<void, 0, MoveOnly<kSelf, 4>, int>>));
MC_SCENARIO("copy-only", 7, 0, 12, 0, (&scenario<World<W0, 1, CopyOnly<kCopy | kSelf, 4>, VW>>));
#elif PART == 2
MC_SCENARIO("overaligned", 7, 0, 12, 0, (&scenario<World<void, 0, char, Elem<kCopy | kAlign, 5>>>));
MC_SCENARIO("const", 7, 0, 12, 0, (&scenario<World<void, 0, const int, E1>>));
MC_SCENARIO("monostate", 7, 0, 12, 0, (&scenario<World<W0, 1, monostate, VW>>));
#elif PART == 3
MC_SCENARIO("fixed", 7, 0, 12, 0, (&scenario<World<void, 0, Fixed, int>>));
MC_SCENARIO("single", 6, 0, 9, 0, (&scenario<World<W0, 0, VW>>));
MC_SCENARIO("own-new", 7, 0, 12, 0, (&scenario<World<void, 0, OwnNew, int>>));
MC_SCENARIO("list-only", 7, 0, 12, 0, (&scenario<World<void, 0, int, ListOnly>>));
MC_SCENARIO("five", 5, 0, 7, 0, (&scenario<World<W0, 4, int, E1, E2, monostate, VW>>));
#elif PART == 4
template <typename V, std::size_t I>
void forwarding()
{
    using fwd::Sink;
    const std::initializer_list<int> il = {1, 2};
    using cetl::pf17::get;
    fwd::every("emplace by index", FWD_LAMBDA { V v; return v.template emplace<I>(FWD_ARGS); });
    fwd::every("emplace by type", FWD_LAMBDA { V v; return v.template emplace<Sink>(FWD_ARGS); });
    fwd::every("emplace by index with a list", FWD_LAMBDA { V v; return v.template emplace<I>(il, FWD_ARGS); }, 2);
    fwd::every("emplace by type with a list", FWD_LAMBDA { V v; return v.template emplace<Sink>(il, FWD_ARGS); }, 2);
    fwd::every("in_place_index", FWD_LAMBDA { V v(in_place_index_t<I>{}, FWD_ARGS); return get<I>(v); });
    fwd::every("in_place_type", FWD_LAMBDA { V v(in_place_type_t<Sink>{}, FWD_ARGS); return get<I>(v); });
    fwd::every("in_place_index with a list", FWD_LAMBDA { V v(in_place_index_t<I>{}, il, FWD_ARGS); return get<I>(v); }, 2);
    fwd::every("in_place_type with a list", FWD_LAMBDA { V v(in_place_type_t<Sink>{}, il, FWD_ARGS); return get<I>(v); }, 2);
}
struct Plain
{
    ~Plain() {}
};
// which alternatives can be made by type and by index, and of what
template <int N>
struct NoDefault
{
    explicit NoDefault(int) {}
    NoDefault(std::initializer_list<char>, int*) {}
};
template <int I>
using nth_alt = std::tuple_element_t<static_cast<std::size_t>(I), std::tuple<int, NoDefault<0>, std::string, const int>>;
template <typename V, std::size_t I, typename Void, typename... As>
struct by_index : std::false_type
{};
template <typename V, std::size_t I, typename... As>
struct by_index<V, I, decltype(void(std::declval<V&>().template emplace<I>(std::declval<As>()...))), As...> : std::true_type
{};
template <typename V, typename T, typename Void, typename... As>
struct by_type : std::false_type
{};
template <typename V, typename T, typename... As>
struct by_type<V, T, decltype(void(std::declval<V&>().template emplace<T>(std::declval<As>()...))), As...> : std::true_type
{};
template <typename T, typename... Ts>
constexpr std::size_t occurrences()
{
    std::size_t n = 0;
    for (const bool b : {std::is_same<T, Ts>::value...})
        n += b ? 1 : 0;
    return n;
}
template <typename... Ts, typename... As>
void available_from(const char* args, fwd::Tag, std::tuple<As...>*, std::tuple<Ts...>*)
{
    using V                     = variant<Ts...>;
    using First                 = std::tuple_element_t<0, std::tuple<Ts...>>;
    constexpr std::size_t count = sizeof...(Ts);
    constexpr bool        made  = std::is_constructible<First, As...>::value;
    constexpr bool        one   = occurrences<First, Ts...>() == 1;
    note("first of %zu alternatives from %s", count, args);
    MC_CHECK((by_index<V, 0, void, As...>::value == made), "emplace by index from %s is %savailable", args, made ? "not " : "");
    MC_CHECK((std::is_constructible<V, in_place_index_t<0>, As...>::value == made), "in_place_index from %s is %savailable", args, made ? "not " : "");
    MC_CHECK((by_type<V, First, void, As...>::value == (made && one)), "emplace by type from %s is %savailable (%zu alternatives)", args, made && one ? "not " : "", count);
    MC_CHECK((std::is_constructible<V, in_place_type_t<First>, As...>::value == (made && one)), "in_place_type from %s is %savailable (%zu alternatives)", args, made && one ? "not " : "", count);
    MC_CHECK((!by_type<V, char*, void, As...>::value && !std::is_constructible<V, in_place_type_t<char*>, As...>::value), "a type that is no alternative");
    MC_CHECK((!std::is_convertible<in_place_index_t<0>, V>::value && !std::is_convertible<in_place_type_t<First>, V>::value), "the tags convert implicitly");
    Hasher h;
    h.u64(count);
    h.u64(typeid(V).hash_code());
    h.u64(static_cast<std::uint64_t>(args[0]) * 256 + static_cast<std::uint64_t>(args[1]));
    outcome(h.key());
}
template <typename... Ts>
void available()
{
    std::tuple<Ts...>* const l = nullptr;
    const fwd::Tag           t{0};
    available_from("()", t, static_cast<std::tuple<>*>(nullptr), l);
    available_from("int", t, static_cast<std::tuple<int>*>(nullptr), l);
    available_from("const char*", t, static_cast<std::tuple<const char*>*>(nullptr), l);
    available_from("two", t, static_cast<std::tuple<std::size_t, char>*>(nullptr), l);
    available_from("list", t, static_cast<std::tuple<std::initializer_list<char>>*>(nullptr), l);
    available_from("list and pointer", t, static_cast<std::tuple<std::initializer_list<char>, int*>*>(nullptr), l);
    available_from("void*", t, static_cast<std::tuple<void*>*>(nullptr), l);
}
template <int A, int B, int... Cs>
void available3(std::integer_sequence<int, Cs...>)
{
    (void) std::initializer_list<int>{(available<nth_alt<A>, nth_alt<B>, nth_alt<Cs>>(), 0)...};
    available<nth_alt<A>, nth_alt<B>>();
}
template <int A, int... Bs>
void available2(std::integer_sequence<int, Bs...> s)
{
    available<nth_alt<A>>();
    (void) std::initializer_list<int>{(available3<A, Bs>(s), 0)...};
}
void availability()
{
    const auto s = std::make_integer_sequence<int, 4>{};
    available2<0>(s);
    available2<1>(s);
    available2<2>(s);
    available2<3>(s);
}
MC_SCENARIO("availability", 0, 0, 0, 0, &availability);
MC_SCENARIO("forwarding/first", 0, 0, 0, 0, (&forwarding<variant<fwd::Sink, int>, 0>));
MC_SCENARIO("forwarding/last", 0, 0, 0, 0, (&forwarding<variant<int, Plain, fwd::Sink>, 2>));
#elif PART == 5
/// More alternatives than one would write down.
template <int K>
using Alt = Elem<kCopy | kSelf, 40 + K>;
constexpr int kMany = 20;
template <int... Ks>
variant<Alt<Ks>...> many_of(std::integer_sequence<int, Ks...>);
using Many = decltype(many_of(std::make_integer_sequence<int, kMany>{}));
template <int K>
struct At
{
    static void set(Many& m, int x, unsigned how)
    {
        Alt<K> e(x);
        switch (how)
        {
        case 0: m.emplace<K>(x); break;
        case 1: m.emplace<Alt<K>>(x); break;
        case 2: m = e; break;
        case 3: m = std::move(e); break;
        case 4: m = Many(e); break;
        default: m = Many(in_place_index_t<K>{}, x); break;
        }
    }
    static void check(const Many& m, int x, const char* who)
    {
        MC_CHECK(m.index() == K && !m.valueless_by_exception(), "%s: alternative %zu, %d expected", who, m.index(), K);
        MC_CHECK(cetl::pf17::holds_alternative<Alt<K>>(m), "%s: does not hold %d", who, K);
        const Alt<K>* const p = cetl::pf17::get_if<K>(&m);
        MC_CHECK(p != nullptr && p == cetl::pf17::get_if<Alt<K>>(&m), "%s: %d is not found", who, K);
        MC_CHECK(cetl::pf17::get_if<(K + 1) % kMany>(&m) == nullptr && cetl::pf17::get_if<(K + 8) % kMany>(&m) == nullptr, "%s: something else than %d is found", who, K);
        MC_CHECK(&cetl::pf17::get<K>(m) == p && p->v == x, "%s: the value is %d, %d expected", who, p->v, x);
        int        calls = 0;
        const void* seen = nullptr;
        const int  tag   = cetl::pf17::visit(
            [&](const auto& y) {
                calls++;
                seen = &y;
                return std::is_same<decltype(y), const Alt<K>&>::value ? K : -1;
            },
            m);
        MC_CHECK(calls == 1 && seen == p && tag == K, "%s: the visitor was called %d times, with the wrong alternative", who, calls);
    }
};
template <int... Ks>
void many(std::integer_sequence<int, Ks...>)
{
    static void (*const set[])(Many&, int, unsigned)             = {&At<Ks>::set...};
    static void (*const check[])(const Many&, int, const char*) = {&At<Ks>::check...};
    const unsigned i = choose(kMany), j = choose(kMany), how = choose(6), op = choose(6);
    const int      x = 1 + static_cast<int>(choose(2)), y = 2;
    note("alternatives %u with %d and %u with %d, stored in way %u, operation %u", i, x, j, y, how, op);
    {
        Slot<Many> sa, sb;
        sa.make(in_place_index_t<0>{}, 5);
        sb.make(in_place_index_t<kMany - 1>{}, 6);
        Many &a = *sa, &b = *sb;
        set[i](a, x, how);
        set[j](b, y, how);
        check[i](a, x, "first");
        check[j](b, y, "second");
        transition();
        switch (op)
        {
        case 0:
            a = b;
            check[j](a, y, "copied to");
            check[j](b, y, "copied from");
            break;
        case 1:
            a = std::move(b);
            check[j](a, y, "moved to");
            check[j](b, kMovedFrom, "moved from");
            break;
        case 2:
            a.swap(b);
            check[j](a, y, "swapped");
            check[i](b, x, "swapped with");
            break;
        case 3:
        {
            const Many c(a), d(std::move(b));
            check[i](c, x, "copy");
            check[j](d, y, "moved copy");
            check[i](a, x, "source");
            break;
        }
        case 4:
            set[j](a, 7, how);
            check[j](a, 7, "stored again");
            break;
        default:
        {
            const bool eq = i == j && x == y, lt = i != j ? i < j : x < y;
            MC_CHECK((a == b) == eq && (a != b) == !eq, "equality of %u and %u", i, j);
            MC_CHECK((a < b) == lt && (b > a) == lt && (b <= a) == !lt && (a >= b) == !lt, "order of %u and %u", i, j);
            break;
        }
        }
    }
    MC_CHECK(live_objects() == 0, "%zu objects are left", static_cast<std::size_t>(live_objects()));
    Hasher h;
    h.u64(i * 1000 + j);
    h.u64(how * 100 + op * 10 + static_cast<unsigned>(x));
    outcome(h.key());
}
MC_SCENARIO("many", 0, 0, 0, 0, [] { many(std::make_integer_sequence<int, kMany>{}); });
#endif
}  // namespace
