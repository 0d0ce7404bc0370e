// C13: run-time type queries agree with the class hierarchy.
#define MC_MAIN
#include "../track.hpp"

#include <cetl/rtti.hpp>

using namespace mc;
namespace
{
/// Identifiers that differ in one late byte only, of different lengths.
template <int I>
struct IdOf
{
    using type = cetl::type_id_type<0x11, 0, 0x22, 0, 0, 0, 0, 0x33, 0, 0, 0, 0, 0, 0, 0, static_cast<std::uint8_t>(I)>;
};
template <>
struct IdOf<1>
{
    using type = cetl::type_id_type<0x11, 0, 0x22, 0, 0, 0, 0, 0x33>;  // zero extension of the above with I = 0 is IdOf<0>: keep apart
};
template <>
struct IdOf<0>
{
    using type = cetl::type_id_type<0x11, 0, 0x22, 0, 0, 0, 0, 0x34>;
};

template <int I, typename... Bases>
struct C : cetl::rtti_helper<typename IdOf<I>::type, Bases...>
{
    long mark = 1000 + I;
};
struct Unrelated : cetl::rtti_helper<cetl::type_id_type<0x99>>
{};
/// Has an identity but takes no part in any hierarchy.
struct OnlyId
{
    static constexpr cetl::type_id _get_type_id_() noexcept { return cetl::type_id_type_value<cetl::type_id_type<0x98>>(); }
};
struct Nothing
{};

template <typename T>
struct tag
{
    using type = T;
};
/// Calls f(tag<class>, pointer to that sub-object) for each class of the tree below p.
template <typename F, int I, typename... Bs>
void each(C<I, Bs...>* p, F&& f)
{
    f(tag<C<I, Bs...>>{}, p);
    int dummy[] = {0, (each(static_cast<Bs*>(p), f), 0)...};
    (void) dummy;
}
/// Is To one of the classes at or above From?
template <typename To, typename From>
struct Above;
template <typename To, int I, typename... Bs>
struct Above<To, C<I, Bs...>>
{
    static constexpr bool any(std::initializer_list<bool> l)
    {
        for (bool b : l)
            if (b)
                return true;
        return false;
    }
    static constexpr bool value = any({std::is_same<To, C<I, Bs...>>::value, Above<To, Bs>::value...});
};

void record(int a, int b, int c)
{
    Hasher h;
    h.u64(static_cast<std::uint64_t>(a));
    h.u64(static_cast<std::uint64_t>(b));
    h.u64(static_cast<std::uint64_t>(c));
    outcome(h.key());
}

/// Cast from a sub-object of static type S to T; the whole object decides.
template <typename T, typename S>
void pair(S* s, T* expected)
{
    const S* cs = s;
    static_assert(std::is_same<decltype(cetl::rtti_cast<T*>(s)), T*>::value, "mutable in, mutable out");
    static_assert(std::is_same<decltype(cetl::rtti_cast<T*>(cs)), const T*>::value, "const in, const out");
    MC_CHECK(cetl::rtti_cast<T*>(s) == expected, "cast yields %p, expected %p", static_cast<void*>(cetl::rtti_cast<T*>(s)), static_cast<void*>(expected));
    MC_CHECK(cetl::rtti_cast<T*>(cs) == expected, "constant cast yields another sub-object");
    MC_CHECK(cetl::rtti_cast<const T*>(cs) == expected, "cast to a constant type yields another sub-object");
    MC_CHECK(cetl::rtti_cast<T*>(static_cast<S*>(nullptr)) == nullptr, "null does not stay null");
    MC_CHECK(cetl::rtti_cast<T*>(static_cast<const S*>(nullptr)) == nullptr, "null does not stay null");
    MC_CHECK(cetl::is_instance_of<T>(*s) == (expected != nullptr), "the instance test disagrees with the cast");
    MC_CHECK(cetl::is_instance_of<T>(*cs) == (expected != nullptr), "the instance test disagrees with the cast");
    MC_CHECK(cetl::is_instance_of(*cs, cetl::type_id_value<T>) == (expected != nullptr), "the instance test by identifier disagrees with the cast");
    if (expected != nullptr)
        MC_CHECK(reinterpret_cast<const char*>(cetl::rtti_cast<T*>(s)) == reinterpret_cast<const char*>(expected), "wrong address");
}
template <typename Root>
void shape(int number)
{
    Root              object{};
    std::vector<long> marks;
    int               si = 0;
    each(&object, [&](auto st, auto* s) {
        using S = typename decltype(st)::type;
        static_assert(cetl::is_rtti_convertible<S> && cetl::has_type_id<S>, "classes of a hierarchy are convertible");
        static_assert(cetl::is_rtti_convertible<const S> && cetl::is_rtti_convertible<S&> && cetl::is_rtti_convertible<const S&>, "references to them are too");
        int ti = 0;
        each(&object, [&](auto tt, auto* t) {
            using T = typename decltype(tt)::type;
            note("shape %d: class %ld seen as %ld", number, s->mark, t->mark);
            pair<T>(s, t);
            record(number, si, ti);
            ti++;
            ex().sh->progress++;
        });
        pair<Unrelated>(s, static_cast<Unrelated*>(nullptr));
        pair<OnlyId>(s, static_cast<OnlyId*>(nullptr));
        MC_CHECK(!cetl::is_instance_of<void>(*s), "an object is an instance of nothing");
        record(number, si, -1);
        si++;
    });
    // an object of each class on its own knows its own part of the tree only
    each(&object, [&](auto st, auto*) {
        using S = typename decltype(st)::type;
        S alone{};
        each(&object, [&](auto tt, auto*) {
            using T             = typename decltype(tt)::type;
            constexpr bool here = Above<T, S>::value;
            MC_CHECK((cetl::rtti_cast<T*>(&alone) != nullptr) == here, "a base object claims to be of a derived class, or a derived one loses its base");
            MC_CHECK((cetl::rtti_cast<T*>(static_cast<cetl::rtti*>(&alone)) != nullptr) == here, "cast from the common root disagrees");
            record(number, static_cast<int>(alone.mark), here);
        });
    });
    static_assert(!cetl::is_rtti_convertible<Nothing> && !cetl::has_type_id<Nothing>, "");
    static_assert(!cetl::is_rtti_convertible<OnlyId> && cetl::has_type_id<OnlyId>, "");
    static_assert(cetl::has_type_id<const OnlyId> && cetl::has_type_id<OnlyId&> && cetl::has_type_id<const OnlyId&> && cetl::has_type_id<OnlyId&&>, "");
    static_assert(!cetl::has_type_id<const Nothing> && !cetl::has_type_id<Nothing&> && !cetl::has_type_id<const Nothing&> && !cetl::has_type_id<Nothing&&>, "");
}
using ShapeFn = void (*)(int);
#define UNPACK(...) __VA_ARGS__
#if PART == 0
#    define MINE(n, i) ((n) <= 5)
#elif PART <= 2
#    define MINE(n, i) ((n) == 6 && (i) % 2 == PART - 1)
#else
#    define MINE(n, i) ((n) == 7 && (i) % 6 == PART - 3)
#endif
#define SHAPE(n, i, T) MINE(n, i) ? &shape<std::conditional_t<MINE(n, i), UNPACK T, C<0>>> : nullptr,
const ShapeFn shapes[] = {
#include "c13_shapes.inc"
};
void shape_scenario()
{
    const unsigned n = sizeof shapes / sizeof shapes[0];
    const unsigned i = choose(n);
    if (shapes[i] != nullptr)
        shapes[i](static_cast<int>(i));
}

// ------------------------------------------------------------------- identifiers
template <typename Seq>
struct Bytes;
template <std::uint8_t... B>
struct Bytes<cetl::type_id_type<B...>>
{
    static std::vector<int> get()
    {
        std::vector<int> v{static_cast<int>(B)...};
        v.resize(16, 0);
        return v;
    }
};
struct Id
{
    cetl::type_id    id;
    std::vector<int> bytes;
};
template <typename Seq>
void add(std::vector<Id>& v)
{
    v.push_back(Id{cetl::type_id_type_value<Seq>(), Bytes<Seq>::get()});
}
template <std::size_t Pos, std::size_t... I>
void add_at(std::vector<Id>& v, std::index_sequence<I...>)
{
    add<cetl::type_id_type<static_cast<std::uint8_t>(I == Pos ? 200 : 0)...>>(v);
}
template <std::size_t... P>
void add_positions(std::vector<Id>& v, std::index_sequence<P...>)
{
    int full[] = {(add_at<P>(v, std::make_index_sequence<16>{}), 0)...};
    int cut[]  = {(add_at<P>(v, std::make_index_sequence<P + 1>{}), 0)...};
    (void) full;
    (void) cut;
}
template <std::uint8_t... B>
void add_all(std::vector<Id>& v, std::integral_constant<int, 0>)
{
    add<cetl::type_id_type<B...>>(v);
}
template <std::uint8_t... B, int N>
void add_all(std::vector<Id>& v, std::integral_constant<int, N>)
{
    add<cetl::type_id_type<B...>>(v);
    add_all<B..., 0>(v, std::integral_constant<int, N - 1>{});
    add_all<B..., 1>(v, std::integral_constant<int, N - 1>{});
    add_all<B..., 255>(v, std::integral_constant<int, N - 1>{});
}
/// Recognises exactly the identifiers it is told to.
struct Custom : cetl::rtti
{
    static constexpr cetl::type_id _get_type_id_() noexcept { return cetl::type_id_type_value<cetl::type_id_type<1, 2>>(); }
    void*                          _cast_(const cetl::type_id& id) & noexcept override { return id == _get_type_id_() ? this : nullptr; }
    const void* _cast_(const cetl::type_id& id) const& noexcept override { return id == _get_type_id_() ? this : nullptr; }
};
void identifiers()
{
    std::vector<Id> v;
    add_all<>(v, std::integral_constant<int, 3>{});
    add_positions(v, std::make_index_sequence<16>{});
    add<cetl::type_id_type<1, 2>>(v);
    const unsigned a = choose(static_cast<unsigned>(v.size())), b = choose(static_cast<unsigned>(v.size()));
    note("identifiers %u and %u", a, b);
    MC_CHECK((v[a].id == v[b].id) == (v[a].bytes == v[b].bytes), "identifiers %u and %u compare wrongly", a, b);
    for (std::size_t i = 0; i < 16; i++)
        MC_CHECK(v[a].id[i] == v[a].bytes[i], "byte %zu of identifier %u is %d", i, a, v[a].id[i]);
    Custom c;
    MC_CHECK(cetl::is_instance_of(c, v[a].id) == (v[a].bytes == Bytes<cetl::type_id_type<1, 2>>::get()), "a hand-written class answers wrongly");
    C<0, C<1>> h;
    MC_CHECK(cetl::is_instance_of(h, v[a].id) == (v[a].bytes == Bytes<IdOf<0>::type>::get() || v[a].bytes == Bytes<IdOf<1>::type>::get()), "a class answers to a foreign identifier");
    MC_CHECK(cetl::type_id_value<void> == cetl::type_id_type_value<cetl::type_id_type<>>(), "the identity of nothing is not all zero");
    record(-2, static_cast<int>(a), static_cast<int>(b));
}
MC_SCENARIO("shapes", 1, 0, 1, 0, [] { shape_scenario(); });
#if PART == 0
MC_SCENARIO("identifiers", 1, 0, 1, 0, [] { identifiers(); });
#endif
}  // namespace
