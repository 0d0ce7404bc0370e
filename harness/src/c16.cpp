// C16: polymorphic_allocator constructs by the uses-allocator rules and asks for exact sizes.
#define MC_MAIN
#include "../pfres.hpp"

#include <limits>
#include <memory>
#include <string>
#include <tuple>

using namespace mc;
namespace
{
namespace pm = cetl::pf17::pmr;
template <typename T>
using PA = pm::polymorphic_allocator<T>;

/// An argument; the constructors say how they received it.
struct Probe
{
    int id;
};
std::string what;  // of the last constructor that ran: position of the allocator, then the arguments
struct Made
{
    const void* p;
    std::string how;
};
std::vector<Made> made;
const char*       who(const pm::memory_resource* r) { return r == &pfres(0) ? "0" : (r == &pfres(1) ? "1" : "?"); }

std::string arg(Probe& p) { return " l" + std::to_string(p.id); }
std::string arg(const Probe& p) { return " cl" + std::to_string(p.id); }
std::string arg(Probe&& p) { return " r" + std::to_string(p.id); }
std::string arg(const Probe&& p) { return " cr" + std::to_string(p.id); }
std::string args() { return ""; }
template <typename A, typename... B>
std::string args(A&& a, B&&... b)
{
    return arg(std::forward<A>(a)) + args(std::forward<B>(b)...);
}
template <typename... A>
struct AllProbes : std::true_type
{};
template <typename A, typename... B>
struct AllProbes<A, B...> : std::integral_constant<bool, std::is_same<std::decay_t<A>, Probe>::value && AllProbes<B...>::value>
{};
#define PROBES(A) std::enable_if_t<AllProbes<A...>::value, int> = 0

struct Base
{
    char pad[3];
    void log(const std::string& s)
    {
        obj_ctor(this, sizeof *this, 1);
        made.push_back(Made{this, s});
    }
    ~Base() { obj_dtor(this, 1); }
};
/// Takes no allocator.
struct Plain : Base
{
    static constexpr char kind = 'p';
    template <typename... A, PROBES(A)>
    explicit Plain(A&&... a) { log("p" + args(std::forward<A>(a)...)); }
    Plain(const Plain&) { log("p copy"); }
    Plain(Plain&&) { log("p move"); }
};
/// Takes a leading allocator, and can be made without one.
struct Lead : Base
{
    static constexpr char kind = 'l';
    using allocator_type       = PA<Lead>;
    template <typename... A, PROBES(A)>
    explicit Lead(A&&... a) { log("without" + args(std::forward<A>(a)...)); }
    template <typename... A, PROBES(A)>
    Lead(std::allocator_arg_t, const allocator_type& al, A&&... a) { log(std::string("l") + who(al.resource()) + args(std::forward<A>(a)...)); }
    Lead(const Lead&) { log("without copy"); }
    Lead(Lead&&) { log("without move"); }
    Lead(std::allocator_arg_t, const allocator_type& al, const Lead&) { log(std::string("l") + who(al.resource()) + " copy"); }
    Lead(std::allocator_arg_t, const allocator_type& al, Lead&&) { log(std::string("l") + who(al.resource()) + " move"); }
};
/// Takes a trailing allocator.
struct Trail : Base
{
    static constexpr char kind = 't';
    using allocator_type       = PA<char>;
    explicit Trail() { log("without"); }
    explicit Trail(const allocator_type& al) { log(std::string("t") + who(al.resource())); }
    template <typename A, std::enable_if_t<AllProbes<A>::value, int> = 0>
    explicit Trail(A&& a) { log("without" + args(std::forward<A>(a))); }
    template <typename A, std::enable_if_t<AllProbes<A>::value, int> = 0>
    Trail(A&& a, const allocator_type& al) { log(std::string("t") + who(al.resource()) + args(std::forward<A>(a))); }
    template <typename A, typename B, std::enable_if_t<AllProbes<A, B>::value, int> = 0>
    Trail(A&& a, B&& b) { log("without" + args(std::forward<A>(a), std::forward<B>(b))); }
    template <typename A, typename B, std::enable_if_t<AllProbes<A, B>::value, int> = 0>
    Trail(A&& a, B&& b, const allocator_type& al) { log(std::string("t") + who(al.resource()) + args(std::forward<A>(a), std::forward<B>(b))); }
    Trail(const Trail&) { log("without copy"); }
    Trail(Trail&&) { log("without move"); }
    Trail(const Trail&, const allocator_type& al) { log(std::string("t") + who(al.resource()) + " copy"); }
    Trail(Trail&&, const allocator_type& al) { log(std::string("t") + who(al.resource()) + " move"); }
};
/// Takes it on either side: the leading form wins.
struct Both : Base
{
    static constexpr char kind = 'b';
    using allocator_type       = PA<Both>;
    template <typename... A, PROBES(A)>
    explicit Both(A&&... a) { log("without" + args(std::forward<A>(a)...)); }
    template <typename... A, PROBES(A)>
    Both(std::allocator_arg_t, const allocator_type& al, A&&... a) { log(std::string("b") + who(al.resource()) + args(std::forward<A>(a)...)); }
    explicit Both(const allocator_type&) { log("trailing"); }
    template <typename A, std::enable_if_t<AllProbes<A>::value, int> = 0>
    Both(A&&, const allocator_type&) { log("trailing"); }
    Both(const Both&) { log("without copy"); }
    Both(Both&&) { log("without move"); }
    Both(const Both&, const allocator_type&) { log("trailing copy"); }
    Both(Both&&, const allocator_type&) { log("trailing move"); }
    Both(std::allocator_arg_t, const allocator_type& al, const Both&) { log(std::string("b") + who(al.resource()) + " copy"); }
    Both(std::allocator_arg_t, const allocator_type& al, Both&&) { log(std::string("b") + who(al.resource()) + " move"); }
};
/// Accepts any allocator by the trait rather than by a member type.
struct ByTrait : Base
{
    static constexpr char kind = 'y';
    template <typename... A, PROBES(A)>
    explicit ByTrait(A&&... a) { log("without" + args(std::forward<A>(a)...)); }
    template <typename T, typename... A, PROBES(A)>
    ByTrait(std::allocator_arg_t, const PA<T>& al, A&&... a) { log(std::string("y") + who(al.resource()) + args(std::forward<A>(a)...)); }
    ByTrait(const ByTrait&) { log("without copy"); }
    ByTrait(ByTrait&&) { log("without move"); }
    template <typename T>
    ByTrait(std::allocator_arg_t, const PA<T>& al, const ByTrait&) { log(std::string("y") + who(al.resource()) + " copy"); }
    template <typename T>
    ByTrait(std::allocator_arg_t, const PA<T>& al, ByTrait&&) { log(std::string("y") + who(al.resource()) + " move"); }
};
}  // namespace
namespace std
{
template <typename T>
struct uses_allocator<ByTrait, cetl::pf17::pmr::polymorphic_allocator<T>> : true_type
{};
}  // namespace std
namespace
{
template <typename U>
std::string expected(int r, const std::string& a)
{
    std::string s(1, U::kind);
    if (U::kind != 'p')
        s += std::to_string(r);
    return s + a;
}
/// Storage for one object.
template <typename U>
struct Room
{
    alignas(U) unsigned char raw[sizeof(U)];
    U* p() { return reinterpret_cast<U*>(raw); }
};
void compare(std::size_t i, const void* p, const std::string& want, const char* form)
{
    MC_CHECK(i < made.size(), "%s: object %zu was not constructed", form, i);
    MC_CHECK(made[i].p == p, "%s: object %zu was constructed elsewhere", form, i);
    MC_CHECK(made[i].how == want, "%s: constructed as [%s], expected [%s]", form, made[i].how.c_str(), want.c_str());
    Hasher h;
    h.str(form);
    h.str(made[i].how.c_str());
    outcome(h.key());
}
/// Calls f with the argument in the given value category.
const char* const kCat[] = {" l", " cl", " r", " cr"};
template <typename F>
void as(unsigned cat, Probe& p, F&& f)
{
    const Probe& c = p;
    switch (cat)
    {
    case 0: return f(p);
    case 1: return f(c);
    case 2: return f(std::move(p));
    default: return f(std::move(c));
    }
}
std::string cat(unsigned c, int id) { return kCat[c] + std::to_string(id); }

/// Through the allocator itself or through allocator_traits.
template <typename A, typename U, typename... X>
void build(bool traits, A& a, U* p, X&&... x)
{
    if (traits)
        std::allocator_traits<A>::construct(a, p, std::forward<X>(x)...);
    else
        a.construct(p, std::forward<X>(x)...);
}
template <typename U, typename T>
void single()
{
    made.clear();
    const int      r      = static_cast<int>(choose(2));
    const bool     traits = choose(2) == 1;
    const unsigned form   = choose(5);
    PA<T>          a(&pfres(r));
    Room<U>        room, other;
    Probe          p{1}, q{2};
    note("single %c, allocator of resource %d, form %u", U::kind, r, form);
    switch (form)
    {
    case 0:
        build(traits, a, room.p());
        compare(0, room.p(), expected<U>(r, ""), "()");
        break;
    case 1:
    {
        const unsigned c = choose(4);
        as(c, p, [&](auto&& x) { build(traits, a, room.p(), std::forward<decltype(x)>(x)); });
        compare(0, room.p(), expected<U>(r, cat(c, 1)), "(x)");
        break;
    }
    case 2:
    {
        const unsigned c = choose(4), d = choose(4);
        as(c, p, [&](auto&& x) { as(d, q, [&](auto&& y) { build(traits, a, room.p(), std::forward<decltype(x)>(x), std::forward<decltype(y)>(y)); }); });
        compare(0, room.p(), expected<U>(r, cat(c, 1) + cat(d, 2)), "(x, y)");
        break;
    }
    default:
        ::new (static_cast<void*>(other.p())) U(p);
        made.clear();
        if (form == 3)
            build(traits, a, room.p(), static_cast<const U&>(*other.p()));
        else
            build(traits, a, room.p(), std::move(*other.p()));
        compare(0, room.p(), expected<U>(r, form == 3 ? " copy" : " move"), "copy/move");
        other.p()->~U();
        break;
    }
    MC_CHECK(made.size() == 1, "%zu objects were constructed by one call", made.size());
    a.destroy(room.p());
    MC_CHECK(live_objects() == 0, "the object was not destroyed");
}
template <typename U, typename V, typename T>
void pairs()
{
    made.clear();
    using P          = std::pair<U, V>;
    const int  r     = static_cast<int>(choose(2));
    const bool traits = choose(2) == 1;
    const unsigned form = choose(9);
    PA<T>      a(&pfres(r));
    Room<P>    room, other;
    Probe      p{1}, q{2}, s{3};
    note("pair %c%c, allocator of resource %d, form %u", U::kind, V::kind, r, form);
    std::string x1, x2;
    const char* f = "";
    switch (form)
    {
    case 0:
        build(traits, a, room.p());
        f = "pair()";
        break;
    case 1:
    {
        const unsigned c = choose(4), d = choose(4);
        as(c, p, [&](auto&& x) { as(d, q, [&](auto&& y) { build(traits, a, room.p(), std::forward<decltype(x)>(x), std::forward<decltype(y)>(y)); }); });
        x1 = cat(c, 1), x2 = cat(d, 2), f = "pair(x, y)";
        break;
    }
    case 2:
    {
        // piecewise with 0..2 arguments on either side
        const unsigned n = choose(3), m = choose(3), c = choose(4), d = choose(4);
        as(c, p, [&](auto&& x) {
            as(d, q, [&](auto&& y) {
                auto t0 = std::tuple<>();
                auto t1 = [&] { return std::forward_as_tuple(std::forward<decltype(x)>(x)); };
                auto t2 = [&] { return std::forward_as_tuple(std::forward<decltype(x)>(x), s); };
                auto u1 = [&] { return std::forward_as_tuple(std::forward<decltype(y)>(y)); };
                auto u2 = [&] { return std::forward_as_tuple(s, std::forward<decltype(y)>(y)); };
                auto go = [&](auto&& g, auto&& h) { build(traits, a, room.p(), std::piecewise_construct, std::forward<decltype(g)>(g), std::forward<decltype(h)>(h)); };
                auto second = [&](auto&& g) {
                    if (m == 0)
                        go(std::forward<decltype(g)>(g), t0);
                    else if (m == 1)
                        go(std::forward<decltype(g)>(g), u1());
                    else
                        go(std::forward<decltype(g)>(g), u2());
                };
                if (n == 0)
                    second(t0);
                else if (n == 1)
                    second(t1());
                else
                    second(t2());
            });
        });
        x1 = n == 0 ? "" : (n == 1 ? cat(c, 1) : cat(c, 1) + " l3");
        x2 = m == 0 ? "" : (m == 1 ? cat(d, 2) : " l3" + cat(d, 2));
        f  = "pair(piecewise)";
        break;
    }
    case 3:
    {
        const std::pair<Probe, Probe> src(p, q);
        build(traits, a, room.p(), src);
        x1 = " cl1", x2 = " cl2", f = "pair(const pair<X, Y>&)";
        break;
    }
    case 4:
    {
        std::pair<Probe, Probe> src(p, q);
        build(traits, a, room.p(), std::move(src));
        x1 = " r1", x2 = " r2", f = "pair(pair<X, Y>&&)";
        break;
    }
    case 5:
    {
        const std::pair<Probe&, const Probe&> src(p, q);
        build(traits, a, room.p(), src);
        x1 = " l1", x2 = " cl2", f = "pair(const pair<X&, const Y&>&)";
        break;
    }
    case 6:
    {
        std::pair<Probe&, Probe&&> src(p, std::move(q));
        build(traits, a, room.p(), std::move(src));
        x1 = " l1", x2 = " r2", f = "pair(pair<X&, Y&&>&&)";
        break;
    }
    default:
        ::new (static_cast<void*>(other.p())) P(p, q);
        made.clear();
        if (form == 7)
            build(traits, a, room.p(), static_cast<const P&>(*other.p()));
        else
            build(traits, a, room.p(), std::move(*other.p()));
        x1 = x2 = form == 7 ? " copy" : " move", f = "pair of the same type";
        other.p()->~P();
        break;
    }
    compare(0, &room.p()->first, expected<U>(r, x1), f);
    compare(1, &room.p()->second, expected<V>(r, x2), f);
    MC_CHECK(made.size() == 2, "%zu objects were constructed by one call for a pair", made.size());
    a.destroy(room.p());
    MC_CHECK(live_objects() == 0, "the pair was not destroyed");
}
/// A class derived from a pair is a class like any other.
struct Heir : std::pair<Plain, Lead>
{
    int extra;
    Heir() : extra(11) {}
    Heir(Probe& a, Probe& b) : std::pair<Plain, Lead>(a, b), extra(12) {}
};
void heirs()
{
    made.clear();
    const int  r = static_cast<int>(choose(2));
    PA<Heir>   a(&pfres(r));
    Room<Heir> room;
    std::memset(room.raw, 0, sizeof room.raw);
    Probe    p{1}, q{2};
    unsigned form = choose(2);
    note("derived from pair, form %u", form);
    if (form == 0)
        a.construct(room.p());
    else
        a.construct(room.p(), p, q);
    MC_CHECK(room.p()->extra == 11 + static_cast<int>(form), "a class derived from a pair is constructed in part only");
    compare(0, &room.p()->first, form == 0 ? "p" : "p l1", "derived");
    compare(1, &room.p()->second, form == 0 ? "without" : "without l2", "derived");
    a.destroy(room.p());
}

// ------------------------------------------------------------------------------------------ memory
template <std::size_t N, std::size_t A>
struct alignas(A) Item
{
    unsigned char c[N];
};
constexpr std::size_t kMax = std::numeric_limits<std::size_t>::max();

template <typename T>
void memory()
{
    const std::size_t n     = kMax / sizeof(T);
    const std::size_t all[] = {0, 1, 2, 5, 17, n / 2, n / 2 + 1, n - 1, n, n == kMax ? n : n + 1, n == kMax ? n : n + 2, kMax / 2, kMax / 2 + 1, kMax - 1, kMax};
    const std::size_t count = all[choose(sizeof all / sizeof *all)];
    const int         r     = static_cast<int>(choose(2));
    // the allocator itself, a copy, one converted from another element type, one for a container copy
    const unsigned via = choose(4);
    PA<T>          first(&pfres(r));
    PA<short>      rebound(first);
    PA<T>          a = via == 0 ? first : via == 1 ? PA<T>(first) : via == 2 ? PA<T>(rebound) : first.select_on_container_copy_construction();
    note("elements of %zu bytes aligned to %zu, %zu of them, resource %d, allocator %u", sizeof(T), alignof(T), count, r, via);
    MC_CHECK(a.resource() == &pfres(r), "a copied allocator has another resource");
    MC_CHECK(a.max_size() == pfres(r).max / sizeof(T), "max_size() is %zu", a.max_size());
    const bool overflow = count > n;
    T*         p        = nullptr;
    Hasher     h;
    h.u64(sizeof(T) * 64 + alignof(T));
    h.u64(count);
#if defined(__cpp_exceptions)
    int how = 0;
    try
    {
        ArmFaults arm;
        p = a.allocate(count);
    } catch (const std::bad_array_new_length&)
    {
        how = 2;
    } catch (const std::bad_alloc&)
    {
        how = 1;
    }
    MC_CHECK((how == 2) == overflow, overflow ? "an overflowing count is not refused by bad_array_new_length" : "a count that does not overflow is refused as overflowing");
    h.u64(static_cast<std::uint64_t>(how));
#else
    {
        ArmFaults arm;
        p = a.allocate(count);
    }
#endif
    outcome(h.key());
    if (overflow)
        MC_CHECK(p == nullptr && live_blocks() == 0, "memory is handed out for an overflowing count");
    if (p == nullptr)
    {
        MC_CHECK(live_blocks() == 0, "a failed allocation keeps memory");
        MC_CHECK(overflow || ex().faults_used > 0 || count * sizeof(T) > pfres(r).max, "an allocation fails for no reason");
        return;
    }
    const Block* b = find_block(p);
    MC_CHECK(b != nullptr && b->res == r, "the block is not from the resource");
    MC_CHECK(b->size == count * sizeof(T), "%zu bytes requested for %zu elements of %zu bytes", b->size, count, sizeof(T));
    MC_CHECK(b->align == alignof(T), "alignment %zu requested for elements aligned to %zu", b->align, alignof(T));
    std::memset(static_cast<void*>(p), 0x5A, b->size);
    // grow or shrink it, then give it back through an equal allocator
    const std::size_t to = all[choose(sizeof all / sizeof *all)];
    std::size_t       now = count;
    if (to != 0 && choose(2) == 1)
    {
        note("reallocate to %zu", to);
        T*        q   = nullptr;
        const Out out = guarded([&] { q = a.reallocate(p, count, to); });
        if (out == Out::ok && q != nullptr)
        {
            b = find_block(q);
            MC_CHECK(to <= n, "memory is handed out for an overflowing count");
            MC_CHECK(b != nullptr && b->size == to * sizeof(T) && b->align == alignof(T), "reallocation asks for a wrong size");
            for (std::size_t i = 0; i < std::min(to, count) * sizeof(T); i++)
                MC_CHECK(reinterpret_cast<unsigned char*>(q)[i] == 0x5A, "reallocation loses contents");
            p = q, now = to;
        }
        else
            MC_CHECK(find_block(p) != nullptr, "a failed reallocation loses the old block");
    }
    PA<T> back(rebound);
    back.deallocate(p, now);
    MC_CHECK(live_blocks() == 0, "the block was not given back");
}
void equality()
{
    tr().equal_class[0] = 5;
    tr().equal_class[1] = choose(2) == 1 ? 5 : 6;
    const int   i = static_cast<int>(choose(2)), j = static_cast<int>(choose(2));
    PA<int>     a(&pfres(i)), a2(&pfres(j));
    PA<Lead>    b(&pfres(j));
    const bool  eq = i == j || tr().equal_class[1] == 5;
    note("resources %d and %d, %s", i, j, eq ? "equal" : "unequal");
    MC_CHECK((a == b) == eq && (b == a) == eq && (a == a2) == eq && (a2 == a) == eq, "== differs from the equality of the resources");
    MC_CHECK((a != b) == !eq && (b != a) == !eq && (a != a2) == !eq && (a2 != a) == !eq, "!= differs from the equality of the resources");
    MC_CHECK(a == a && !(a != a), "an allocator is not equal to itself");
    Hasher h;
    h.u64(static_cast<std::uint64_t>(i * 4 + j * 2 + (eq ? 1 : 0)));
    outcome(h.key());
}
/// Parentheses, not braces: they choose another constructor and allow conversions.
struct Listed
{
    int how = 0;
    Listed(int, int) : how(2) {}
    Listed(std::initializer_list<int>) : how(9) {}
    explicit Listed(short) : how(1) {}
};
template <bool Leading>
struct ListedWith
{
    using allocator_type = PA<char>;
    int how = 0;
    ListedWith(std::allocator_arg_t, const allocator_type&, int, int) : how(Leading ? 2 : 8) {}
    ListedWith(std::allocator_arg_t, const allocator_type&, short) : how(Leading ? 1 : 8) {}
};
template <>
struct ListedWith<false>
{
    using allocator_type = PA<char>;
    int how = 0;
    ListedWith(int, int, const allocator_type&) : how(2) {}
    ListedWith(short, const allocator_type&) : how(1) {}
};
template <typename T>
void braces()
{
    const int form = range(0, 1), n = range(0, 3);
    note("%d arguments of a type that may be listed", form + 1);
    PA<T>    a(&pfres(0));
    T* const p = a.allocate(1);
    long     x = n;
    if (form == 0)
        a.construct(p, x);
    else
        a.construct(p, x, 3L);
    const int how = p->how;
    a.destroy(p);
    a.deallocate(p, 1);
    MC_CHECK(how == form + 1, "constructor %d is used, %d expected", how, form + 1);
    Hasher h;
    h.u64(static_cast<std::uint64_t>(form * 10 + n));
    outcome(h.key());
}
#if !defined(PART) || PART == 0
MC_SCENARIO("braces/plain", 0, 0, 0, 0, [] { braces<Listed>(); });
MC_SCENARIO("braces/leading", 0, 0, 0, 0, [] { braces<ListedWith<true>>(); });
MC_SCENARIO("braces/trailing", 0, 0, 0, 0, [] { braces<ListedWith<false>>(); });
MC_SCENARIO("single/plain", 1, 0, 1, 0, [] { choose(2) ? single<Plain, Plain>() : single<Plain, char>(); });
MC_SCENARIO("single/lead", 1, 0, 1, 0, [] { choose(2) ? single<Lead, Lead>() : single<Lead, char>(); });
MC_SCENARIO("single/trail", 1, 0, 1, 0, [] { choose(2) ? single<Trail, Trail>() : single<Trail, char>(); });
MC_SCENARIO("single/both", 1, 0, 1, 0, [] { single<Both, Both>(); });
MC_SCENARIO("single/bytrait", 1, 0, 1, 0, [] { choose(2) ? single<ByTrait, ByTrait>() : single<ByTrait, char>(); });
MC_SCENARIO("derived", 1, 0, 1, 0, heirs);
MC_SCENARIO("memory/1", 1, 2, 1, 2, [] { memory<Item<1, 1>>(); });
MC_SCENARIO("memory/2", 1, 2, 1, 2, [] { memory<Item<2, 2>>(); });
MC_SCENARIO("memory/3", 1, 2, 1, 2, [] { memory<Item<3, 1>>(); });
MC_SCENARIO("memory/12", 1, 2, 1, 2, [] { memory<Item<12, 4>>(); });
MC_SCENARIO("memory/24", 1, 2, 1, 2, [] { memory<Item<24, 8>>(); });
MC_SCENARIO("memory/64", 1, 2, 1, 2, [] { memory<Item<33, 32>>(); });
MC_SCENARIO("memory/256", 1, 2, 1, 2, [] { memory<Item<200, 128>>(); });
MC_SCENARIO("equality", 1, 0, 1, 0, equality);
#endif
#define PAIRS(U)                                                                \
    MC_SCENARIO("pair/" #U "Plain", 1, 0, 1, 0, [] { pairs<U, Plain, char>(); });   \
    MC_SCENARIO("pair/" #U "Lead", 1, 0, 1, 0, [] { pairs<U, Lead, char>(); });     \
    MC_SCENARIO("pair/" #U "Trail", 1, 0, 1, 0, [] { pairs<U, Trail, U>(); });      \
    MC_SCENARIO("pair/" #U "Both", 1, 0, 1, 0, [] { pairs<U, Both, U>(); })
#if !defined(PART) || PART == 1
PAIRS(Plain);
PAIRS(Lead);
#endif
#if !defined(PART) || PART == 2
PAIRS(Trail);
PAIRS(Both);
MC_SCENARIO("pair/ByTraitPlain", 1, 0, 1, 0, [] { pairs<ByTrait, Plain, std::pair<ByTrait, Plain>>(); });
#endif
}  // namespace
