// C19: an optional is empty or holds exactly the expected value.
#define MC_MAIN
#include "fwd.hpp"
#include "opt.hpp"

#include <string>
#if __cplusplus >= 201703L
#    include <optional>
#endif

using namespace mc;
using namespace mc::opt;
namespace
{
using E = Elem<kCopy | kSelf>;
#if PART == 0
MC_SCENARIO("int", 7, 0, 12, 0, &scenario<Kind<int, short, false, false>>);
MC_SCENARIO("nontrivial", 7, 0, 12, 0, &scenario<Kind<V<E>, W<0>, true, true>>);
MC_SCENARIO("nontrivial-std-swap", 7, 0, 12, 0, &scenario<Kind<VS<E>, W<0>, true, true>>);
MC_SCENARIO("bare", 7, 0, 12, 0, &scenario<Kind<V<Bare<kCopy>>, W<0>, true, true>>);
#elif PART == 1
MC_SCENARIO("move-only", 7, 0, 12, 0, &scenario<Kind<V<MoveOnly<kSelf>>, W<0>, true, true>>);
MC_SCENARIO("copy-only", 7, 0, 12, 0, &scenario<Kind<V<CopyOnly<kCopy | kSelf>>, W<0>, false, true>>);
MC_SCENARIO("overaligned", 7, 0, 12, 0, &scenario<Kind<V<Elem<kCopy | kAlign>>, W<0>, true, true>>);
#elif PART == 2
MC_SCENARIO("const-member", 7, 0, 12, 0, &scenario<Kind<ConstMember, W<0>, false, false>>);
MC_SCENARIO("const-int", 7, 0, 12, 0, &scenario<Kind<const int, short, false, false>>);
MC_SCENARIO("fixed", 7, 0, 12, 0, &scenario<Kind<Fixed, W<0>, false, false>>);
MC_SCENARIO("own-new", 7, 0, 12, 0, &scenario<Kind<OwnNew, W<0>, true, true>>);
MC_SCENARIO("explicit", 7, 0, 12, 0, &scenario<Kind<VE<E>, W<0>, true, true>>);
// Assignment of an empty pair of braces takes the value away whatever its type is.
enum Plain
{
    kPlain
};
enum class Scoped
{
    kScoped
};
struct Class
{
    int  x = 1;
    void f() {}
};
template <typename T>
void braces_of(const char* type)
{
    const unsigned f = choose(4);
    optional<T>    o;
    if (f & 1)
        o.emplace();
    note("%s optional<%s> = {}", (f & 1) ? "engaged" : "empty", type);
    if (f & 2)
        o = optional<T>{};
    else
        o = {};
    MC_CHECK(!o.has_value(), "optional<%s> has a value after = {}", type);
    o = T{};
    MC_CHECK(o.has_value(), "optional<%s> has no value after the assignment of one", type);
    const T t{};
    o = nullopt;
    o = t;
    MC_CHECK(o.has_value(), "optional<%s> has no value after the assignment of a const one", type);
    Hasher h;
    h.bytes(type, std::strlen(type));
    h.u64(f);
    outcome(h.key());
}
void braces()
{
    switch (choose(13))
    {
    case 0: return braces_of<bool>("bool");
    case 1: return braces_of<char>("char");
    case 2: return braces_of<unsigned long>("unsigned long");
    case 3: return braces_of<double>("double");
    case 4: return braces_of<int*>("int*");
    case 5: return braces_of<const char*>("const char*");
    case 6: return braces_of<void (*)(int)>("function pointer");
    case 7: return braces_of<int Class::*>("pointer to a member");
    case 8: return braces_of<void (Class::*)()>("pointer to a member function");
    case 9: return braces_of<Plain>("enum");
    case 10: return braces_of<Scoped>("enum class");
    case 11: return braces_of<std::nullptr_t>("nullptr_t");
    default: return braces_of<Class>("class");
    }
}
MC_SCENARIO("braces", 1, 0, 1, 0, &braces);
// If the value type itself can be made of or assigned from an optional, the optional is taken as a value even if it is empty.
struct Any
{
    int  kind = 0;  // 1: made of a value, 2: of an optional, 3: assigned a value, 4: assigned an optional
    bool full = false;
    Any() = default;
    Any(int) : kind(1), full(true) {}
    Any(const optional<int>& o) : kind(2), full(o.has_value()) {}
    Any& operator=(int)
    {
        kind = 3;
        full = true;
        return *this;
    }
    Any& operator=(const optional<int>& o)
    {
        kind = 4;
        full = o.has_value();
        return *this;
    }
};
struct AssignedOnly  // made of values only, but assigned both
{
    int  kind = 0;
    bool full = false;
    AssignedOnly() = default;
    AssignedOnly(int) : kind(1), full(true) {}
    AssignedOnly& operator=(int)
    {
        kind = 3;
        full = true;
        return *this;
    }
    AssignedOnly& operator=(const optional<int>& o)
    {
        kind = 4;
        full = o.has_value();
        return *this;
    }
};
template <typename D, typename S>
void assign_as(D& d, S& s, unsigned category)
{
    switch (category)
    {
    case 0: d = s; break;
    case 1: d = static_cast<const S&>(s); break;
    case 2: d = std::move(s); break;
    default: d = static_cast<const S&&>(s);
    }
}
template <typename D, typename S>
D make_of(S& s, unsigned category)
{
    switch (category)
    {
    case 0: return D(s);
    case 1: return D(static_cast<const S&>(s));
    case 2: return D(std::move(s));
    default: return D(static_cast<const S&&>(s));
    }
}
template <typename U>
void nested_of(const char* type)
{
    const bool     full = choose(2) == 1, engaged = choose(2) == 1;
    const unsigned category = choose(4);
    optional<U>    src;
    note("%s optional<%s>, value category %u, destination %s", full ? "engaged" : "empty", type, category, engaged ? "engaged" : "empty");
    auto fill = [&] { src.reset(); if (full) src.emplace(static_cast<U>(7)); };
    fill();
    auto o = make_of<optional<optional<int>>>(src, category);
    MC_CHECK(o.has_value() && o->has_value() == full && (!full || **o == 7), "an optional of an optional made of an optional is %s", o.has_value() ? "wrong inside" : "empty");
    fill();
    auto a = make_of<optional<Any>>(src, category);
    MC_CHECK(a.has_value() && a->kind == 2 && a->full == full, "a value that can be made of an optional is made differently");
    optional<optional<int>> p;
    optional<Any>           b;
    if (engaged)
    {
        p.emplace(3);
        b.emplace();
    }
    fill();
    assign_as(p, src, category);
    MC_CHECK(p.has_value() && p->has_value() == full && (!full || **p == 7), "an optional of an optional assigned an optional is %s", p.has_value() ? "wrong inside" : "empty");
    fill();
    assign_as(b, src, category);
    MC_CHECK(b.has_value() && b->kind == (engaged && std::is_same<U, int>::value ? 4 : b->kind) && b->full == full, "a value that can be assigned an optional is assigned differently");
    MC_CHECK(b->kind == 2 || b->kind == 4, "a value that can be assigned an optional is assigned its value");
    // No such assignment takes part, so that a temporary is made and moved.
    optional<AssignedOnly> c;
    if (engaged)
        c.emplace();
    fill();
    assign_as(c, src, category);
    MC_CHECK(c.has_value() == full && (!full || c->kind == 1), "an optional of what can be assigned but not made of an optional %s", c.has_value() ? "holds something else" : "is empty");
    Hasher h;
    h.bytes(type, std::strlen(type));
    h.u64(full * 8U + engaged * 4U + category);
    outcome(h.key());
}
void nested()
{
    switch (choose(2))
    {
    case 0: return nested_of<int>("int");
    default: return nested_of<short>("short");
    }
}
void forwarding()
{
    using fwd::Sink;
    using O = optional<Sink>;
    const std::initializer_list<int> il = {1, 2};
    fwd::every("emplace", FWD_LAMBDA { O o; return o.emplace(FWD_ARGS); });
    fwd::every("emplace when engaged", FWD_LAMBDA { O o(in_place); return o.emplace(FWD_ARGS); });
    fwd::every("emplace with a list", FWD_LAMBDA { O o; return o.emplace(il, FWD_ARGS); }, 2);
    fwd::every("in_place", FWD_LAMBDA { O o(in_place, FWD_ARGS); return *o; });
    fwd::every("in_place with a list", FWD_LAMBDA { O o(in_place, il, FWD_ARGS); return *o; }, 2);
    fwd::every("make_optional", FWD_LAMBDA { return *cetl::pf17::make_optional<Sink>(FWD_ARGS); });
    fwd::every("make_optional with a list", FWD_LAMBDA { return *cetl::pf17::make_optional<Sink>(il, FWD_ARGS); }, 2);
}
MC_SCENARIO("forwarding", 0, 0, 0, 0, &forwarding);
MC_SCENARIO("nested", 1, 0, 1, 0, &nested);
#elif PART == 3 && __cplusplus >= 201703L
// Which conversions exist, and which of them are implicit, compared with the standard optional.
struct Cetl
{
    template <typename T>
    using opt  = optional<T>;
    using none = cetl::pf17::nullopt_t;
};
struct Std
{
    template <typename T>
    using opt  = std::optional<T>;
    using none = std::nullopt_t;
};
struct Base
{};
struct Derived : Base
{};
struct FromInt
{
    FromInt(int) {}
};
struct ExplicitFromInt
{
    explicit ExplicitFromInt(int) {}
    ExplicitFromInt& operator=(int) { return *this; }
};
struct ToInt
{
    operator int() const { return 1; }
};
struct ExplicitToInt
{
    explicit operator int() const { return 1; }
};
struct FromAny
{
    template <typename X, typename = std::enable_if_t<!std::is_same<std::decay_t<X>, FromAny>::value>>
    FromAny(X&&)
    {}
};
struct MoveOnlyT
{
    MoveOnlyT()                       = default;
    MoveOnlyT(MoveOnlyT&&)            = default;
    MoveOnlyT& operator=(MoveOnlyT&&) = default;
};
struct CopyNoAssign
{
    CopyNoAssign()                               = default;
    CopyNoAssign(const CopyNoAssign&)            = default;
    CopyNoAssign& operator=(const CopyNoAssign&) = delete;
};
struct LvalueOnly
{
    LvalueOnly(int&) {}
};
struct AssignOnly  // assignable from but not made of long
{
    AssignOnly() = default;
    AssignOnly& operator=(long) { return *this; }
};
struct Aggregate
{
    int a;
};
template <typename L, int N>
struct type_at;
#define TYPE_AT(n, ...)            \
    template <typename L>          \
    struct type_at<L, n>           \
    {                              \
        using type = __VA_ARGS__;  \
    };
TYPE_AT(0, int)
TYPE_AT(1, short)
TYPE_AT(2, Base)
TYPE_AT(3, Derived)
TYPE_AT(4, FromInt)
TYPE_AT(5, ExplicitFromInt)
TYPE_AT(6, ToInt)
TYPE_AT(7, ExplicitToInt)
TYPE_AT(8, FromAny)
TYPE_AT(9, MoveOnlyT)
TYPE_AT(10, CopyNoAssign)
TYPE_AT(11, LvalueOnly)
TYPE_AT(12, AssignOnly)
TYPE_AT(13, Aggregate)
TYPE_AT(14, const char*)
TYPE_AT(15, std::string)
TYPE_AT(16, Derived*)
TYPE_AT(17, Base*)
TYPE_AT(18, typename L::template opt<int>)
TYPE_AT(19, typename L::template opt<FromInt>)
TYPE_AT(20, const int)
TYPE_AT(21, double)
constexpr int kTypes = 22;
// arguments: the types themselves, optionals of them, and the empty tag
template <typename L, int N, bool = (N < kTypes), bool = (N < 2 * kTypes)>
struct arg_at
{
    using type = typename type_at<L, N>::type;
};
template <typename L, int N>
struct arg_at<L, N, false, true>
{
    using type = typename L::template opt<typename type_at<L, N - kTypes>::type>;
};
template <typename L>
struct arg_at<L, 2 * kTypes, false, false>
{
    using type = typename L::none;
};
constexpr int kArgs = 2 * kTypes + 1;
template <typename L, int T, int A>
constexpr unsigned facts()
{
    using O = typename L::template opt<typename type_at<L, T>::type>;
    using X = typename arg_at<L, A>::type;
    return (std::is_constructible<O, X&>::value ? 1u : 0u) | (std::is_constructible<O, const X&>::value ? 2u : 0u) |
           (std::is_constructible<O, X&&>::value ? 4u : 0u) | (std::is_convertible<X&, O>::value ? 8u : 0u) |
           (std::is_convertible<const X&, O>::value ? 16u : 0u) | (std::is_convertible<X&&, O>::value ? 32u : 0u) |
           (std::is_assignable<O&, X&>::value ? 64u : 0u) | (std::is_assignable<O&, const X&>::value ? 128u : 0u) |
           (std::is_assignable<O&, X&&>::value ? 256u : 0u);
}
template <int T, int... A>
constexpr bool row(unsigned (&c)[kArgs], unsigned (&s)[kArgs], std::integer_sequence<int, A...>)
{
    ((c[A] = facts<Cetl, T, A>()), ...);
    ((s[A] = facts<Std, T, A>()), ...);
    return true;
}
unsigned table_c[kTypes][kArgs], table_s[kTypes][kArgs];
template <int... T>
void fill(std::integer_sequence<int, T...>)
{
    (row<T>(table_c[T], table_s[T], std::make_integer_sequence<int, kArgs>{}), ...);
}
void conversions()
{
    fill(std::make_integer_sequence<int, kTypes>{});
    const int          t       = static_cast<int>(choose(kTypes));
    const int          a       = static_cast<int>(choose(kArgs));
    static const char* types[] = {"int", "short", "Base", "Derived", "FromInt", "ExplicitFromInt", "ToInt", "ExplicitToInt", "FromAny", "MoveOnly", "CopyNoAssign",
                                  "LvalueOnly", "AssignOnly", "Aggregate", "const char*", "string", "Derived*", "Base*", "optional<int>", "optional<FromInt>", "const int", "double"};
    static const char* what[]  = {"construction from lvalue", "construction from const lvalue", "construction from rvalue", "implicit construction from lvalue",
                                  "implicit construction from const lvalue", "implicit construction from rvalue", "assignment from lvalue", "assignment from const lvalue",
                                  "assignment from rvalue"};
    const std::string  arg     = a < kTypes ? types[a] : a < 2 * kTypes ? std::string("optional<") + types[a - kTypes] + ">" : "nullopt_t";
    note("optional<%s> from %s", types[t], arg.c_str());
    for (unsigned b = 0; b < 9; b++)
        MC_CHECK(((table_c[t][a] ^ table_s[t][a]) >> b & 1) == 0, "%s: optional<%s> from %s is %s", what[b], types[t], arg.c_str(),
                 (table_c[t][a] >> b & 1) ? "accepted" : "rejected");
    Hasher h;
    h.u64(table_c[t][a]);
    h.u64(static_cast<std::uint64_t>(t));
    outcome(h.key());
}
MC_SCENARIO("conversions", 1, 0, 1, 0, &conversions);
#endif
}  // namespace
