// C08: an unbounded variant holds exactly the last value stored.
#define MC_MAIN
#include "fwd.hpp"
#include "uv.hpp"
#include "uvwide.hpp"
using namespace uv;
//                    types first vals recr alias peek
static Cfg all     = {4, 0, 1, true, true, true};
static Cfg values  = {2, 1, 2, false, true, true};
#define KIND(label, F, K, A, Pmr)                                                                \
    MC_SCENARIO("all/" label, 6, 0, 12, 0, [] { run_world<Profile<F, K, A, Pmr, 0>>(all); });     \
    MC_SCENARIO("values/" label, 6, 0, 12, 0, [] { run_world<Profile<F, K, A, Pmr, 0>>(values); })
#if PART == 0
KIND("inside", 96, kFull, 16, false);
KIND("inside-move-only", 96, kMoveOnly, 8, false);
#elif PART == 1
KIND("inside-copy-only", 128, kCopyOnly, 64, false);
KIND("inside-pinned", 96, kPinned, 16, false);
#elif PART == 2
KIND("pmr", 0, kFull, 16, true);
KIND("pmr-move-only", 0, kMoveOnly, 8, true);
#elif PART == 3
KIND("pmr-copy-only", 0, kCopyOnly, 16, true);
KIND("pmr-pinned", 0, kPinned, 64, true);
#elif PART == 4
KIND("mixed", 16, kFull, 16, true);
KIND("mixed-move-only", 48, kMoveOnly, 16, true);
#elif PART == 6
namespace cetl
{
template <>
constexpr type_id type_id_getter<mc::fwd::Sink>() noexcept
{
    return {0x53, 0x69, 0x6E, 0x6B};
}
}  // namespace cetl
static void forwarding()
{
    using mc::fwd::Sink;
    using In  = cetl::unbounded_variant<sizeof(Sink)>;
    using Out = cetl::unbounded_variant<0, true, true, alignof(Sink), cetl::pmr::memory_resource>;
    using cetl::make_unbounded_variant;
    using IT = typename In::in_place_type_t<Sink>;
    using OT = typename Out::in_place_type_t<Sink>;
    const std::initializer_list<int> il = {1, 2};
    auto* const                      m  = &mc::res(0);
    mc::fwd::every("emplace", FWD_LAMBDA { In v; return *v.emplace<Sink>(FWD_ARGS); });
    mc::fwd::every("emplace allocated", FWD_LAMBDA { Out v(m); return *v.emplace<Sink>(FWD_ARGS); });
    mc::fwd::every("emplace with a list", FWD_LAMBDA { In v; return *v.emplace<Sink>(il, FWD_ARGS); }, 2);
    mc::fwd::every("in_place_type", FWD_LAMBDA { In v(IT{}, FWD_ARGS); return *cetl::get_if<Sink>(&v); });
    mc::fwd::every("in_place_type with a list", FWD_LAMBDA { In v(IT{}, il, FWD_ARGS); return *cetl::get_if<Sink>(&v); }, 2);
    mc::fwd::every("in_place_type allocated", FWD_LAMBDA { Out v(m, OT{}, FWD_ARGS); return *cetl::get_if<Sink>(&v); });
    mc::fwd::every("in_place_type allocated with a list", FWD_LAMBDA { Out v(m, OT{}, il, FWD_ARGS); return *cetl::get_if<Sink>(&v); }, 2);
    mc::fwd::every("make_unbounded_variant", FWD_LAMBDA { auto v = make_unbounded_variant<Sink, In>(FWD_ARGS); return *cetl::get_if<Sink>(&v); });
    mc::fwd::every("make_unbounded_variant with a list", FWD_LAMBDA { auto v = make_unbounded_variant<Sink, In>(il, FWD_ARGS); return *cetl::get_if<Sink>(&v); }, 2);
    mc::fwd::every("make_unbounded_variant allocated", FWD_LAMBDA { auto v = make_unbounded_variant<Sink, Out>(static_cast<cetl::pmr::memory_resource*>(m), FWD_ARGS); return *cetl::get_if<Sink>(&v); });
    mc::fwd::every("make_unbounded_variant allocated with a list", FWD_LAMBDA { auto v = make_unbounded_variant<Sink, Out>(static_cast<cetl::pmr::memory_resource*>(m), il, FWD_ARGS); return *cetl::get_if<Sink>(&v); }, 2);
}
MC_SCENARIO("forwarding", 0, 0, 0, 0, &forwarding);
#elif PART == 7
MC_SCENARIO("sizes/inside", 0, 0, 0, 0, (&wide::Wide<300, true, true, false>::run));
MC_SCENARIO("sizes/inside-copy-only", 0, 0, 0, 0, (&wide::Wide<1024, true, false, false>::run));
MC_SCENARIO("sizes/inside-move-only", 0, 0, 0, 0, (&wide::Wide<70000, false, true, false>::run));
#elif PART == 8
namespace cetl
{
template <>
constexpr type_id type_id_getter<const char*>() noexcept
{
    return {0x53, 0x74, 0x72};
}
template <>
constexpr type_id type_id_getter<int (*)()>() noexcept
{
    return {0x46, 0x6E};
}
}  // namespace cetl
static int seven() { return 7; }
template <typename E>
struct Parts
{
    E first{11}, second{12};
    static constexpr cetl::type_id _get_type_id_() noexcept { return {{0x50, 0x61}}; }
};
/// The forms in which a value is stored and asked for.
template <typename V>
static void forms_of(const char* who, V& v)
{
    using E       = WithId<Pick<kFull, kCopy | kSelf, 1>, 1>;
    const V& cv   = v;
    auto     live = [&](const char* form) {
        E* const p = cetl::get_if<E>(&v);
        MC_CHECK(p != nullptr, "%s: the value is lost by %s", who, form);
        return p;
    };
    static_assert(std::is_same<decltype(cetl::get_if<E>(&v)), E*>::value, "");
    static_assert(std::is_same<decltype(cetl::get_if<E>(&cv)), const E*>::value, "");
    static_assert(std::is_same<decltype(cetl::get_if<const E>(&v)), const E*>::value, "");
    static_assert(std::is_same<decltype(cetl::get_if<volatile E>(&v)), volatile E*>::value, "");
    static_assert(std::is_same<decltype(cetl::get<E>(v)), E>::value, "");
    static_assert(std::is_same<decltype(cetl::get<E&>(v)), E&>::value, "");
    static_assert(std::is_same<decltype(cetl::get<const E&>(cv)), const E&>::value, "");
    static_assert(std::is_same<decltype(cetl::get<E&&>(std::move(v))), E&&>::value, "");
    v.template emplace<E>(5);
    E* const p = live("emplace");
    MC_CHECK(cetl::get_if<const E>(&v) == p && cetl::get_if<volatile E>(&v) == p && cetl::get_if<const E>(&cv) == p, "%s: qualified access reaches another object", who);
    {
        const E x = cetl::get<E>(v);
        MC_CHECK(x.get() == 5 && live("a copy")->get() == 5, "%s: get() by value of a variable: %d, left %d", who, x.get(), p->get());
    }
    {
        const E x = cetl::get<const E>(v);
        MC_CHECK(x.get() == 5 && live("a copy")->get() == 5, "%s: get() of a constant value: %d, left %d", who, x.get(), p->get());
    }
    {
        const E x = cetl::get<E>(cv);
        MC_CHECK(x.get() == 5 && live("a copy")->get() == 5, "%s: get() by value of a constant: %d, left %d", who, x.get(), p->get());
    }
    MC_CHECK(&cetl::get<E&>(v) == p && &cetl::get<const E&>(v) == p && &cetl::get<const E&>(cv) == p, "%s: get() reaches another object", who);
    {
        E&& x = cetl::get<E&&>(std::move(v));
        MC_CHECK(&x == p && x.get() == 5, "%s: get() of an rvalue reference touches the value", who);
    }
    {
        const E x = cetl::get<E>(std::move(v));
        MC_CHECK(x.get() == 5 && live("moving out")->v == kMovedFrom, "%s: get() of an rvalue does not move the value", who);
    }
    v = E(6);
    MC_CHECK(live("assignment")->get() == 6, "%s: assigned value is %d", who, live("assignment")->get());
    E e(7);
    v = e;
    MC_CHECK(live("assignment")->get() == 7 && e.get() == 7, "%s: assigned lvalue is %d, left %d", who, live("assignment")->get(), e.get());
    const E ce(8);
    v = ce;
    MC_CHECK(live("assignment")->get() == 8, "%s: assigned constant is %d", who, live("assignment")->get());
    v.template emplace<const E>(9);
    MC_CHECK(live("emplacing a constant")->get() == 9, "%s: emplaced constant is %d", who, live("emplacing a constant")->get());
    v = "text";
    MC_CHECK(cetl::get_if<const char*>(&v) != nullptr && std::strcmp(*cetl::get_if<const char*>(&v), "text") == 0, "%s: an array is not stored as a pointer", who);
    MC_CHECK(v.type_size() == sizeof(const char*) && cetl::get_if<E>(&v) == nullptr, "%s: a stored pointer has %zu bytes", who, v.type_size());
    // a part of the stored value may be stored instead of it
    v.template emplace<Parts<E>>();
    v = cetl::get<Parts<E>&>(v).second;
    MC_CHECK(live("assignment of a part")->get() == 12, "%s: the part assigned is %d", who, live("assignment of a part")->v);
    v.template emplace<Parts<E>>();
    v = std::move(cetl::get<Parts<E>&>(v).first);
    MC_CHECK(live("assignment of a part")->get() == 11, "%s: the part assigned is %d", who, live("assignment of a part")->v);
    v.template emplace<Parts<E>>();
    v = static_cast<const E&>(cetl::get<Parts<E>&>(v).second);
    MC_CHECK(live("assignment of a part")->get() == 12, "%s: the part assigned is %d", who, live("assignment of a part")->v);
    v = cetl::get<E&>(v);
    MC_CHECK(live("assignment of itself")->get() == 12, "%s: the value assigned to itself is %d", who, live("assignment of itself")->v);
    v = seven;
    MC_CHECK(cetl::get_if<int (*)()>(&v) != nullptr && (*cetl::get_if<int (*)()>(&v))() == 7, "%s: a function is not stored as a pointer", who);
    transition();
    Hasher h;
    h.str(who);
    outcome(h.key());
}
static void forms()
{
    using E   = WithId<Pick<kFull, kCopy | kSelf, 1>, 1>;
    using In  = cetl::unbounded_variant<sizeof(Parts<E>)>;
    using Out = cetl::unbounded_variant<0, true, true, 16, cetl::pmr::memory_resource>;
    using Mix = cetl::unbounded_variant<8, true, true, 16, cetl::pmr::memory_resource>;
    switch (choose(5))
    {
    case 0: { In v; forms_of("in place", v); break; }
    case 1: { Out v(&mc::res(0)); forms_of("allocated", v); break; }
    case 2: { Mix v(&mc::res(0)); forms_of("mixed", v); break; }
    case 3:
    {
        const E ce(3);
        E       e(4);
        In      a(ce), b(e), c(E(5)), d(std::move(e));
        MC_CHECK(cetl::get<E&>(a).get() == 3 && cetl::get<E&>(b).get() == 4 && cetl::get<E&>(c).get() == 5 && cetl::get<E&>(d).get() == 4, "values given to constructors are not stored");
        In f("text"), g(seven), i(In::in_place_type_t<const E>{}, 6);
        MC_CHECK(std::strcmp(cetl::get<const char*>(f), "text") == 0 && cetl::get<int (*)()>(g)() == 7 && cetl::get<E&>(i).get() == 6, "values given to constructors are not stored");
        In  j = E(7);  // implicit
        In  k(static_cast<In&>(j));  // a copy, not a variant inside a variant
        MC_CHECK(cetl::get<E&>(j).get() == 7 && cetl::get<E&>(k).get() == 7, "a variant made of a variant is no copy");
        transition();
        break;
    }
    default:
    {
        auto* const r = static_cast<cetl::pmr::memory_resource*>(&mc::res(1));
        const E     ce(3);
        E           e(4);
        Out         a(r, ce), b(r, e), c(r, E(5)), d(r, std::move(e)), f(r, "text"), g(r, seven), i(r, Out::in_place_type_t<const E>{}, 6), k(static_cast<Out&>(i));
        MC_CHECK(cetl::get<E&>(a).get() == 3 && cetl::get<E&>(b).get() == 4 && cetl::get<E&>(c).get() == 5 && cetl::get<E&>(d).get() == 4, "values given to constructors are not stored");
        MC_CHECK(std::strcmp(cetl::get<const char*>(f), "text") == 0 && cetl::get<int (*)()>(g)() == 7 && cetl::get<E&>(i).get() == 6 && cetl::get<E&>(k).get() == 6, "values given to constructors are not stored");
        transition();
        break;
    }
    }
}
MC_SCENARIO("forms", 0, 0, 0, 0, &forms);
/// A variant made to the measure of a type.
template <bool Copy, bool Move, std::size_t Align, std::size_t N>
struct alignas(Align) Measured
{
    unsigned char b[N];
    explicit Measured(unsigned char x)
    {
        for (auto& y : b)
            y = x;
    }
    Measured(std::initializer_list<int> l, unsigned char x) : Measured(static_cast<unsigned char>(l.size() + x)) {}
    Measured(const Measured&) = default;
    static constexpr cetl::type_id _get_type_id_() noexcept { return {{0x4D, static_cast<std::uint8_t>(N), static_cast<std::uint8_t>(Align)}}; }
};
template <std::size_t Align, std::size_t N>
struct alignas(Align) Measured<false, true, Align, N>
{
    unsigned char b[N];
    explicit Measured(unsigned char x)
    {
        for (auto& y : b)
            y = x;
    }
    Measured(std::initializer_list<int> l, unsigned char x) : Measured(static_cast<unsigned char>(l.size() + x)) {}
    Measured(Measured&&) = default;
    static constexpr cetl::type_id _get_type_id_() noexcept { return {{0x4D, static_cast<std::uint8_t>(N), static_cast<std::uint8_t>(Align)}}; }
};
template <std::size_t Align, std::size_t N>
struct alignas(Align) Measured<false, false, Align, N>
{
    unsigned char b[N];
    explicit Measured(unsigned char x)
    {
        for (auto& y : b)
            y = x;
    }
    Measured(std::initializer_list<int> l, unsigned char x) : Measured(static_cast<unsigned char>(l.size() + x)) {}
    Measured(Measured&&) = delete;
    static constexpr cetl::type_id _get_type_id_() noexcept { return {{0x4D, static_cast<std::uint8_t>(N), static_cast<std::uint8_t>(Align)}}; }
};
template <bool Copy, bool Move, std::size_t Align, std::size_t N>
static void measure()
{
    using T = Measured<Copy, Move, Align, N>;
    using V = cetl::unbounded_variant_like<T>;
    note("variant like a type of %zu bytes aligned to %zu, copyable %d, movable %d", sizeof(T), alignof(T), Copy, Move);
    static_assert(std::is_copy_constructible<T>::value == Copy && std::is_move_constructible<T>::value == (Copy || Move), "");
    MC_CHECK(std::is_copy_constructible<V>::value == Copy && std::is_move_constructible<V>::value == (Copy || Move), "the variant is copyable %d, movable %d", std::is_copy_constructible<V>::value, std::is_move_constructible<V>::value);
    MC_CHECK(alignof(V) >= Align, "the variant is aligned to %zu", alignof(V));
    V v(typename V::template in_place_type_t<T>{}, static_cast<unsigned char>(7));
    T* const p = cetl::get_if<T>(&v);
    MC_CHECK(p != nullptr && reinterpret_cast<std::uintptr_t>(p) % Align == 0 && p->b[0] == 7 && p->b[N - 1] == 7 && v.type_size() == sizeof(T), "the value is not stored as it should be");
    V w(typename V::template in_place_type_t<T>{}, {1, 2}, static_cast<unsigned char>(7));
    T* const q = cetl::get_if<T>(&w);
    MC_CHECK(q != nullptr && reinterpret_cast<std::uintptr_t>(q) % Align == 0 && q->b[0] == 9 && q->b[N - 1] == 9, "the value is not made of the list");
    transition();
    Hasher h;
    h.u64(Copy * 2 + Move);
    h.u64(N * 1000 + Align);
    outcome(h.key());
}
template <bool Copy, bool Move>
static void measures()
{
    switch (choose(6))
    {
    case 0: return measure<Copy, Move, 1, 1>();
    case 1: return measure<Copy, Move, 4, 12>();
    case 2: return measure<Copy, Move, 16, 16>();
    case 3: return measure<Copy, Move, 32, 32>();
    case 4: return measure<Copy, Move, 64, 64>();
    default: return measure<Copy, Move, 128, 1024>();
    }
}
MC_SCENARIO("measured", 0, 0, 0, 0, [] {
    switch (choose(3))
    {
    case 0: return measures<true, true>();
    case 1: return measures<false, true>();
    default: return measures<false, false>();
    }
});
#else
KIND("mixed-copy-only", 24, kCopyOnly, 8, true);
KIND("mixed-pinned", 16, kPinned, 16, true);
#endif
