// C28: spans against a model (address, size, extent) and, in C++20, against the standard span.
#define MC_MAIN
#include "../resource.hpp"

#include <cetl/pf20/span.hpp>

#include <array>
#if __cplusplus >= 202002L
#    include <span>
#endif

using namespace mc;
namespace
{
using cetl::pf20::dynamic_extent;
template <typename T, std::size_t E = dynamic_extent>
using Span = cetl::pf20::span<T, E>;

#if defined(CETL_ENABLE_DEBUG_ASSERT) && CETL_ENABLE_DEBUG_ASSERT && !defined(NDEBUG)
constexpr bool kAsserts = true;
#else
constexpr bool kAsserts = false;
#endif
/// The use is outside of the contract: the assertion must stop it. Without assertions nothing is required.
template <typename F>
void refused(F&& f, const char* what, std::size_t a, std::size_t b)
{
    if (kAsserts)
        MC_CHECK(expect_abort(f), "%s with %zu, %zu was not caught by an assertion", what, a, b);
}
struct Big
{
    char c[24];
};
struct NoAddress  // has an operator & of its own
{
    int        v;
    NoAddress* operator&() { return nullptr; }
    const NoAddress* operator&() const { return nullptr; }
};
template <typename T>
struct Block  // of exactly n elements
{
    using U = std::remove_cv_t<T>;
    U* p;
    explicit Block(std::size_t n)
        : p(static_cast<U*>(std::malloc(n * sizeof(U) + (n == 0))))
    {
        std::memset(static_cast<void*>(p), 1, n * sizeof(U));
    }
    ~Block() { std::free(p); }
};
template <typename T>
void touch(T& x)
{
    const volatile unsigned char* p = &reinterpret_cast<const volatile unsigned char&>(x);
    for (std::size_t i = 0; i < sizeof(T); i++)
        (void) p[i];
}
template <typename T>
std::uintptr_t address(T& x)
{
    return reinterpret_cast<std::uintptr_t>(std::addressof(x));
}
/// Everything one can observe of a span.
template <typename T, std::size_t E>
void observe(const Span<T, E>& s, T* p, std::size_t n, const char* what)
{
    using S = Span<T, E>;
    MC_CHECK(static_cast<std::size_t>(S::extent) == E, "%s: extent", what);
    MC_CHECK(s.data() == p, "%s: data() is %td elements off", what, s.data() - p);
    MC_CHECK(s.size() == n, "%s: size() is %zu, %zu expected", what, s.size(), n);
    MC_CHECK(s.size_bytes() == n * sizeof(T), "%s: size_bytes() is %zu, %zu expected", what, s.size_bytes(), n * sizeof(T));
    MC_CHECK(s.empty() == (n == 0), "%s: empty() is wrong", what);
    const auto b = s.begin();
    const auto e = s.end();
    MC_CHECK(b == p, "%s: begin() is elsewhere", what);
    MC_CHECK(e == p + n, "%s: end() is elsewhere", what);
    MC_CHECK(s.rbegin().base() == e && s.rend().base() == b, "%s: reverse iterators are wrong", what);
    std::size_t k = 0;
    for (auto& x : s)
    {
        MC_CHECK(address(x) == address(p[k]), "%s: iteration meets another element than %zu", what, k);
        touch(x);
        k++;
    }
    MC_CHECK(k == n, "%s: iteration meets %zu elements instead of %zu", what, k, n);
    for (auto i = s.rbegin(); i != s.rend(); ++i)
    {
        k--;
        MC_CHECK(address(*i) == address(p[k]), "%s: reverse iteration meets another element than %zu", what, k);
    }
    for (std::size_t i = 0; i < n; i++)
        MC_CHECK(address(s[i]) == address(p[i]), "%s: element %zu is another one", what, i);
    if (n)
    {
        MC_CHECK(address(s.front()) == address(p[0]), "%s: front() is another element", what);
        MC_CHECK(address(s.back()) == address(p[n - 1]), "%s: back() is another element", what);
    }
    else
    {
        refused([&] { touch(s.front()); }, "front() of an empty span", 0, 0);
        refused([&] { touch(s.back()); }, "back() of an empty span", 0, 0);
    }
    for (std::size_t i : {n, n + 1, ~std::size_t{0}, ~std::size_t{0} / 2})
        refused([&] { touch(s[i]); }, "operator[]", i, n);
}
std::vector<std::size_t> numbers(std::size_t n)
{
    std::vector<std::size_t> v;
    for (std::size_t i = 0; i <= n + 1; i++)
        v.push_back(i);
    for (std::size_t i = 0; i <= n + 1; i++)
        v.push_back(~std::size_t{0} - i);
    v.push_back(~std::size_t{0} / 2);
    v.push_back(~std::size_t{0} / 2 + 1);
    return v;
}
/// Sub-spans with arguments.
template <typename T, std::size_t E>
void parts(const Span<T, E>& s, T* p, std::size_t n)
{
    for (const std::size_t c : numbers(n))
    {
        if (c <= n)
        {
            observe<T, dynamic_extent>(s.first(c), p, c, "first(n)");
            observe<T, dynamic_extent>(s.last(c), p + (n - c), c, "last(n)");
            observe<T, dynamic_extent>(s.subspan(c), p + c, n - c, "subspan(n)");
        }
        else
        {
            refused([&] { (void) s.first(c); }, "first(n)", c, n);
            refused([&] { (void) s.last(c); }, "last(n)", c, n);
            refused([&] { (void) s.subspan(c); }, "subspan(n)", c, n);
        }
        for (const std::size_t d : numbers(n))
        {
            if (c <= n && d <= n - c)
                observe<T, dynamic_extent>(s.subspan(c, d), p + c, d, "subspan(n, m)");
            else if (c <= n && d == dynamic_extent)
                observe<T, dynamic_extent>(s.subspan(c, d), p + c, n - c, "subspan(n, all)");
            else
                refused([&] { (void) s.subspan(c, d); }, "subspan(n, m)", c, d);
        }
    }
}
/// Sub-spans with template arguments. Those which do not fit are refused at compile time for static extents.
template <std::size_t N>
using Size = std::integral_constant<std::size_t, N>;
template <typename T, std::size_t E, std::size_t C>
void part1(const Span<T, E>& s, T* p, std::size_t n, Size<C>, std::true_type)
{
    if (C <= n)
    {
        const auto f = s.template first<C>();
        const auto l = s.template last<C>();
        const auto t = s.template subspan<C>();
        MC_CHECK((std::is_same<decltype(f), const Span<T, C>>::value && std::is_same<decltype(l), const Span<T, C>>::value), "first<N> or last<N> give the wrong extent");
        MC_CHECK((std::is_same<decltype(t), const Span<T, E == dynamic_extent ? dynamic_extent : E - C>>::value), "subspan<N> gives the wrong extent");
        observe(f, p, C, "first<N>()");
        observe(l, p + (n - C), C, "last<N>()");
        observe(t, p + C, n - C, "subspan<N>()");
    }
    else
    {
        refused([&] { (void) s.template first<C>(); }, "first<N>()", C, n);
        refused([&] { (void) s.template last<C>(); }, "last<N>()", C, n);
        refused([&] { (void) s.template subspan<C>(); }, "subspan<N>()", C, n);
    }
}
template <typename T, std::size_t E, std::size_t O, std::size_t C>
void part2(const Span<T, E>& s, T* p, std::size_t n, Size<O>, Size<C>, std::true_type)
{
    if (O <= n && C <= n - O)
    {
        const auto t = s.template subspan<O, C>();
        MC_CHECK((std::is_same<decltype(t), const Span<T, C>>::value), "subspan<N, M> gives the wrong extent");
        observe(t, p + O, C, "subspan<N, M>()");
    }
    else
    {
        refused([&] { (void) s.template subspan<O, C>(); }, "subspan<N, M>()", O, C);
    }
}
template <typename T, std::size_t E, std::size_t C>
void part1(const Span<T, E>&, T*, std::size_t, Size<C>, std::false_type)
{}
template <typename T, std::size_t E, std::size_t O, std::size_t C>
void part2(const Span<T, E>&, T*, std::size_t, Size<O>, Size<C>, std::false_type)
{}
using Eater = int[];
template <std::size_t O, typename T, std::size_t E, std::size_t... Cs>
void static_parts2(const Span<T, E>& s, T* p, std::size_t n, std::index_sequence<Cs...>)
{
    (void) Eater{(part2<T, E>(s, p, n, Size<O>{}, Size<Cs>{}, std::integral_constant<bool, (E == dynamic_extent) || (O <= E && Cs <= E - O)>{}), 0)...};
}
template <typename T, std::size_t E, std::size_t... Cs>
void static_parts(const Span<T, E>& s, T* p, std::size_t n, std::index_sequence<Cs...> all)
{
    (void) Eater{(part1<T, E>(s, p, n, Size<Cs>{}, std::integral_constant<bool, (E == dynamic_extent || Cs <= E)>{}), 0)...};
    (void) Eater{(static_parts2<Cs, T, E>(s, p, n, all), 0)...};
}
void done(std::uint64_t x)
{
    Hasher h;
    h.u64(x);
    outcome(h.key());
}
constexpr std::size_t kStatic = 5;
template <typename T>
void dynamic_spans()
{
    const std::size_t n = choose(ex().depth + 1);
    Block<T>          b(n);
    T* const          p = b.p;
    note("%zu elements", n);
    switch (choose(5))
    {
    case 0:
    {
        const Span<T> s(p, n);
        observe(s, p, n, "span(p, n)");
        parts(s, p, n);
        done(n);
        break;
    }
    case 1:
    {
        const Span<T> s(p, p + n);
        observe(s, p, n, "span(p, q)");
        refused([&] { (void) Span<T>(p + n, p - 1 + (n == 0)); if (n == 0) { volatile int zero = 0; assert(zero); } }, "a reversed range", n, 0);
        done(10 + n);
        break;
    }
    case 2:
    {
        const Span<T> s(p, n);
        static_parts(s, p, n, std::make_index_sequence<kStatic>{});
        done(20 + n);
        break;
    }
    case 3:
    {
        const Span<T> s;
        observe(s, static_cast<T*>(nullptr), 0, "span()");
        parts(s, static_cast<T*>(nullptr), 0);
        static_parts(s, static_cast<T*>(nullptr), 0, std::make_index_sequence<3>{});
        done(30 + n);
        break;
    }
    default:
    {
        const Span<T>       s(p, n);
        const Span<T>       copy(s);
        const Span<const T> other(s);
        observe(copy, p, n, "a copy");
        observe<const T, dynamic_extent>(other, p, n, "a copy for reading");
        Span<T> assigned;
        assigned = s;
        observe(assigned, p, n, "an assigned span");
        Span<const T> more(p, n);
        more = Span<T>();
        observe<const T, dynamic_extent>(more, static_cast<T*>(nullptr), 0, "a span assigned an empty one");
        more = s;
        observe<const T, dynamic_extent>(more, p, n, "a span assigned one for writing");
        done(40 + n);
        break;
    }
    }
}
template <typename T, std::size_t E>
void from_arrays(std::true_type)
{
    using U = std::remove_cv_t<T>;
    // On the heap, so that the ends are watched.
    struct Raw
    {
        U a[E];
    };
    std::unique_ptr<Raw>               raw(new Raw());
    std::unique_ptr<std::array<U, E>>  arr(new std::array<U, E>());
    const std::array<U, E>&            carr = *arr;
    const Span<T, E>                   s(raw->a);
    const Span<T>                      d(raw->a);
    const Span<T, E>                   t(*arr);
    const Span<T>                      f(*arr);
    const Span<const T, E>             u(carr);
    const Span<const T>                g(carr);
    observe<T, E>(s, raw->a, E, "span<N> of an array");
    observe<T, dynamic_extent>(d, raw->a, E, "span of an array");
    observe<T, E>(t, arr->data(), E, "span<N> of a std::array");
    observe<T, dynamic_extent>(f, arr->data(), E, "span of a std::array");
    observe<const T, E>(u, carr.data(), E, "span<N> of a const std::array");
    observe<const T, dynamic_extent>(g, carr.data(), E, "span of a const std::array");
}
template <typename T, std::size_t E>
void from_arrays(std::false_type)
{
    std::array<std::remove_cv_t<T>, 0> a{};
    const Span<T, 0>                   s(a);
    const Span<T>                      d(a);
    observe<T, 0>(s, a.data(), 0, "span<0> of an empty std::array");
    observe<T, dynamic_extent>(d, a.data(), 0, "span of an empty std::array");
    const Span<T, 0> e;
    observe(e, static_cast<T*>(nullptr), 0, "span<0>()");
    static_parts(e, static_cast<T*>(nullptr), 0, std::make_index_sequence<2>{});
}
template <typename T, std::size_t E>
void static_spans()
{
    const std::size_t n = choose(kStatic + 2);
    Block<T>          b(n);
    T* const          p = b.p;
    note("extent %zu, %zu elements", E, n);
    if (n == E)
    {
        const Span<T, E> s(p, n), t(p, p + n);
        observe(s, p, n, "span<N>(p, n)");
        observe(t, p, n, "span<N>(p, q)");
        parts(s, p, n);
        static_parts(s, p, n, std::make_index_sequence<kStatic + 1>{});
        const Span<T>          d(s);
        const Span<T, E>       copy(s), back(d);
        const Span<const T, E> other(s), cback(d);
        const Span<const T>    cd(s);
        observe(d, p, n, "a dynamic copy of a static span");
        observe(copy, p, n, "a copy");
        observe(back, p, n, "a static copy of a dynamic span");
        observe<const T, E>(other, p, n, "a static copy for reading");
        observe<const T, E>(cback, p, n, "a static copy for reading of a dynamic span");
        observe<const T, dynamic_extent>(cd, p, n, "a dynamic copy for reading of a static span");
        Block<T>   q(n);
        Span<T, E> assigned(static_cast<T*>(q.p), n);
        assigned = s;
        observe(assigned, p, n, "an assigned span");
        from_arrays<T, E>(std::integral_constant<bool, E != 0>{});
    }
    else
    {
        const Span<T> d(p, n);
        refused([&] { (void) Span<T, E>(p, n); }, "span<N>(p, n)", E, n);
        refused([&] { (void) Span<T, E>(p, p + n); }, "span<N>(p, q)", E, n);
        refused([&] { (void) Span<T, E>(d); }, "span<N>(span)", E, n);
        refused([&] { (void) Span<const T, E>(d); }, "span<const N>(span)", E, n);
    }
    done(E * 100 + n);
}
template <typename T>
void all_static_spans()
{
    switch (choose(5))
    {
    case 0: static_spans<T, 0>(); break;
    case 1: static_spans<T, 1>(); break;
    case 2: static_spans<T, 2>(); break;
    case 3: static_spans<T, 3>(); break;
    default: static_spans<T, 5>(); break;
    }
}
/// Histories: a sub-span of a sub-span of ...
template <typename T>
void histories()
{
    constexpr std::size_t N = 6;
    Block<T>              b(N);
    Span<T>               s(b.p, N);
    std::size_t           at = 0, n = N;
    const unsigned        depth = ex().depth;
    for (unsigned d = 0;; d++)
    {
        Hasher h;
        h.u64(at);
        h.u64(n);
        h.u64(s.size());
        h.u64(static_cast<std::uint64_t>(s.data() - b.p));
        const Key k = h.key();
        if (unseen(k))
        {
            observe<T, dynamic_extent>(s, b.p + at, n, "the span");
            parts<T, dynamic_extent>(s, b.p + at, n);
        }
        if (!boundary(k, depth - d) || d == depth)
            return;
        const unsigned op = choose(6);
        const auto     c  = static_cast<std::size_t>(choose(static_cast<unsigned>(n) + 1));
        switch (op)
        {
        case 0:
            note("first(%zu)", c);
            s = s.first(c);
            n = c;
            break;
        case 1:
            note("last(%zu)", c);
            s = s.last(c);
            at += n - c;
            n = c;
            break;
        case 2:
            note("subspan(%zu)", c);
            s = s.subspan(c);
            at += c;
            n -= c;
            break;
        case 3:
        {
            const auto m = static_cast<std::size_t>(choose(static_cast<unsigned>(n - c) + 1));
            note("subspan(%zu, %zu)", c, m);
            s = s.subspan(c, m);
            at += c;
            n = m;
            break;
        }
        case 4:
            note("through a static span");
            if (c != 0 || n < 2)
                return;
            s = Span<T>(s.template first<2>()).subspan(1);
            at += 1;
            n = 1;
            break;
        default:
            note("the rest of a static span");
            if (c != 0 || n < 3)
                return;
            s = s.template last<3>().template subspan<1>();
            at += n - 2;
            n = 2;
            break;
        }
        transition();
    }
}
// ---------------------------------------------------------------------------------- conversions
struct Base
{
    int a;
};
struct Derived : Base
{};
template <int I>
struct elem;
#define ELEM(i, ...)            \
    template <>                 \
    struct elem<i>              \
    {                           \
        using type = __VA_ARGS__; \
    };
ELEM(0, int)
ELEM(1, const int)
ELEM(2, volatile int)
ELEM(3, const volatile int)
ELEM(4, Base)
ELEM(5, const Base)
ELEM(6, Derived)
ELEM(7, const Derived)
ELEM(8, unsigned)
constexpr int         kElems    = 9;
constexpr std::size_t extents[] = {0, 1, 2, 3, dynamic_extent};
constexpr int         kExtents  = 5;
const char*           enames[]  = {"int", "const int", "volatile int", "const volatile int", "Base", "const Base", "Derived", "const Derived", "unsigned"};

template <typename S>
void take(S);
template <typename S, typename A, typename B, typename = void>
struct brace_convertible : std::false_type
{};
template <typename S, typename A, typename B>
struct brace_convertible<S, A, B, decltype(void(take<S>({std::declval<A>(), std::declval<B>()})))> : std::true_type
{};
struct Answers
{
    unsigned bits;
    unsigned count;
    void     add(bool b) { bits |= static_cast<unsigned>(b) << count++; }
};
template <typename S, typename U>
void ask(Answers& a)
{
    a.add(std::is_constructible<S, U>::value);
    a.add(std::is_convertible<U, S>::value);
    a.add(std::is_nothrow_constructible<S, U>::value);
    a.add(std::is_assignable<S&, U>::value);
}
/// What can be made of what: spans (kind 0), arrays (1), std::arrays (2), pointers (3)
template <typename S, typename O, typename U>
Answers ask_all(std::integral_constant<int, 0>, Size<0>)
{
    Answers a{};
    ask<S, O>(a);
    ask<S, const O&>(a);
    ask<S, O&>(a);
    return a;
}
template <typename S, typename O, typename U, std::size_t N>
Answers ask_all(std::integral_constant<int, 1>, Size<N>)
{
    Answers a{};
    ask<S, U (&)[N]>(a);
    ask<S, const U (&)[N]>(a);
    return a;
}
template <typename S, typename O, typename U, std::size_t N>
Answers ask_all(std::integral_constant<int, 2>, Size<N>)
{
    Answers a{};
    ask<S, std::array<U, N>&>(a);
    ask<S, const std::array<U, N>&>(a);
    ask<S, std::array<U, N>>(a);
    return a;
}
template <typename S, typename O, typename U>
Answers ask_all(std::integral_constant<int, 3>, Size<0>)
{
    Answers a{};
    a.add(std::is_constructible<S, U*, std::size_t>::value);
    a.add(std::is_constructible<S, U*, int>::value);
    a.add(std::is_default_constructible<S>::value);
    a.add(brace_convertible<S, U*, std::size_t>::value);
    return a;
}
/// By the rules of the standard, spelt out.
template <std::size_t E, typename T, std::size_t E2, typename U>
Answers expect_spans()
{
    Answers        a{};
    constexpr bool elements = std::is_convertible<U (*)[], T (*)[]>::value;
    constexpr bool fits     = elements && (E == dynamic_extent || E2 == dynamic_extent || E == E2);
    constexpr bool implicit = fits && (E == dynamic_extent || E2 != dynamic_extent);
    for (int i = 0; i < 3; i++)
    {
        a.add(fits);
        a.add(implicit);
        a.add(fits);
        a.add(implicit);
    }
    return a;
}
template <std::size_t E, typename T, typename U, std::size_t N>
Answers expect_arrays(unsigned kind)
{
    Answers    a{};
    const bool size = E == dynamic_extent || E == N;
    for (unsigned i = 0; i < kind + 1; i++)
    {
        // lvalue, const lvalue, rvalue (read only)
        const bool ok = size && (i == 0 ? std::is_convertible<U (*)[], T (*)[]>::value : std::is_convertible<const U (*)[], T (*)[]>::value);
        for (int k = 0; k < 4; k++)
            a.add(ok);
    }
    return a;
}
template <std::size_t E, typename T, typename U>
Answers expect_pointers()
{
    Answers    a{};
    const bool ok = std::is_convertible<U*, T*>::value;  // the standard excludes pointers to base classes
    a.add(ok);
    a.add(ok);
    a.add(E == dynamic_extent || E == 0);
    a.add(ok && E == dynamic_extent);
    return a;
}
void judge(const char* what, int t, std::size_t e, int u, std::size_t e2, const Answers& is, const Answers& must, const char* by)
{
    MC_CHECK(is.bits == must.bits, "span<%s, %zd> from %s of %s, %zd: answers %x, %x by %s", enames[t], static_cast<ssize_t>(e), what, enames[u], static_cast<ssize_t>(e2), is.bits, must.bits, by);
}
template <int T, int E, int U>
void conversions_of()
{
    using TT               = typename elem<T>::type;
    using UU               = typename elem<U>::type;
    constexpr std::size_t e = extents[E];
    using S                = Span<TT, e>;
#if __cplusplus >= 202002L
    using R = std::span<TT, e>;
#    define SPANS(e2) judge("a span", T, e, U, e2, ask_all<R, std::span<UU, e2>, UU>(std::integral_constant<int, 0>{}, Size<0>{}), expect_spans<e, TT, e2, UU>(), "the rule (standard)")
#    define ARRAYS(k, n) judge(k == 1 ? "an array" : "a std::array", T, e, U, n, ask_all<R, void, UU>(std::integral_constant<int, k>{}, Size<n>{}), expect_arrays<e, TT, UU, n>(k), "the rule (standard)")
    SPANS(0);
    SPANS(1);
    SPANS(2);
    SPANS(3);
    SPANS(dynamic_extent);
    ARRAYS(1, 1);
    ARRAYS(1, 2);
    ARRAYS(1, 3);
    ARRAYS(2, 0);
    ARRAYS(2, 1);
    ARRAYS(2, 2);
    ARRAYS(2, 3);
#    undef SPANS
#    undef ARRAYS
#endif
#define SPANS(e2) judge("a span", T, e, U, e2, ask_all<S, Span<UU, e2>, UU>(std::integral_constant<int, 0>{}, Size<0>{}), expect_spans<e, TT, e2, UU>(), "the rule")
#define ARRAYS(k, n) judge(k == 1 ? "an array" : "a std::array", T, e, U, n, ask_all<S, void, UU>(std::integral_constant<int, k>{}, Size<n>{}), expect_arrays<e, TT, UU, n>(k), "the rule")
    SPANS(0);
    SPANS(1);
    SPANS(2);
    SPANS(3);
    SPANS(dynamic_extent);
    ARRAYS(1, 1);
    ARRAYS(1, 2);
    ARRAYS(1, 3);
    ARRAYS(2, 0);
    ARRAYS(2, 1);
    ARRAYS(2, 2);
    ARRAYS(2, 3);
    judge("a pointer", T, e, U, 0, ask_all<S, void, UU>(std::integral_constant<int, 3>{}, Size<0>{}), expect_pointers<e, TT, UU>(), "the rule");
    done(static_cast<std::uint64_t>(T * 1000 + E * 100 + U));
}
template <int T, int E, int... Us>
void conversions_u(std::integer_sequence<int, Us...>)
{
    const int u = static_cast<int>(choose(sizeof...(Us)));
    (void) Eater{(u == Us ? conversions_of<T, E, Us>() : void(), 0)...};
}
template <int T, int... Es>
void conversions_e(std::integer_sequence<int, Es...>)
{
    const int e = static_cast<int>(choose(sizeof...(Es)));
    (void) Eater{(e == Es ? conversions_u<T, Es>(std::make_integer_sequence<int, kElems>{}) : void(), 0)...};
}
template <int... Ts>
void conversions(std::integer_sequence<int, Ts...>)
{
    const int t = static_cast<int>(choose(sizeof...(Ts)));
    (void) Eater{(t == Ts ? conversions_e<Ts>(std::make_integer_sequence<int, kExtents>{}) : void(), 0)...};
}
template <typename T, std::size_t E>
void members()
{
    using S = Span<T, E>;
    using V = std::remove_cv_t<T>;
    MC_CHECK((std::is_same<typename S::element_type, T>::value && std::is_same<typename S::value_type, V>::value && std::is_same<typename S::pointer, T*>::value &&
              std::is_same<typename S::reference, T&>::value && std::is_same<typename S::const_pointer, const T*>::value && std::is_same<typename S::const_reference, const T&>::value),
             "member types");
    MC_CHECK((std::is_trivially_copyable<S>::value), "not trivially copyable");
    MC_CHECK((std::is_same<decltype(std::declval<const S&>()[0]), T&>::value && std::is_same<decltype(std::declval<const S&>().front()), T&>::value), "element types");
    done(E + 50);
}
#if PART == 0
MC_SCENARIO("dynamic/int", 5, 0, 6, 0, &dynamic_spans<int>);
MC_SCENARIO("dynamic/const-char", 5, 0, 6, 0, &dynamic_spans<const char>);
MC_SCENARIO("dynamic/big", 5, 0, 6, 0, &dynamic_spans<Big>);
MC_SCENARIO("dynamic/no-address", 5, 0, 6, 0, &dynamic_spans<NoAddress>);
MC_SCENARIO("history/int", 6, 0, 8, 0, &histories<int>);
MC_SCENARIO("history/big", 6, 0, 8, 0, &histories<Big>);
MC_SCENARIO("members", 1, 0, 1, 0, ([] {
                switch (choose(4))
                {
                case 0: members<int, 3>(); break;
                case 1: members<const int, 0>(); break;
                case 2: members<const Big, dynamic_extent>(); break;
                default: members<volatile int, dynamic_extent>(); break;
                }
            }));
#elif PART == 1
MC_SCENARIO("static/int", 1, 0, 1, 0, &all_static_spans<int>);
MC_SCENARIO("static/const-char", 1, 0, 1, 0, &all_static_spans<const char>);
MC_SCENARIO("static/big", 1, 0, 1, 0, &all_static_spans<Big>);
MC_SCENARIO("static/no-address", 1, 0, 1, 0, &all_static_spans<NoAddress>);
#elif PART == 3
/// Long spans: what can be observed without visiting every element.
template <typename T, std::size_t E>
void look(const Span<T, E>& s, T* p, std::size_t n, const char* what)
{
    MC_CHECK(s.data() == p, "%s: data() is %td elements off", what, s.data() - p);
    MC_CHECK(s.size() == n, "%s: size() is %zu, %zu expected", what, s.size(), n);
    MC_CHECK(s.size_bytes() == n * sizeof(T), "%s: size_bytes() is %zu, %zu expected", what, s.size_bytes(), n * sizeof(T));
    MC_CHECK(s.empty() == (n == 0), "%s: empty() is wrong", what);
    MC_CHECK(s.begin() == p && s.end() == p + n, "%s: begin() or end() is elsewhere", what);
    MC_CHECK(s.rbegin().base() == s.end() && s.rend().base() == s.begin(), "%s: reverse iterators are wrong", what);
    if (n)
        MC_CHECK(address(s.front()) == address(p[0]) && address(s.back()) == address(p[n - 1]), "%s: front() or back() is another element", what);
    for (std::size_t i : {std::size_t{0}, n / 2, n - 1})
        if (i < n)
            MC_CHECK(address(s[i]) == address(p[i]), "%s: element %zu is another one", what, i);
    refused([&] { touch(s[n]); }, "operator[]", n, n);
}
template <std::size_t... Ns>
struct Sizes
{};
using Lengths = Sizes<0, 1, 15, 16, 17, 31, 32, 33, 127, 128, 129, 255, 256, 257, 300, 1000, 4096, 32768, 65535, 65536, 65537, 70000>;
template <typename T, std::size_t E, std::size_t C>
void long_part(const Span<T, E>& s, T* p, std::size_t n, Size<C>, std::true_type)
{
    look<T, dynamic_extent>(s.first(C), p, C, "first(n)");
    look<T, dynamic_extent>(s.last(C), p + (n - C), C, "last(n)");
    look<T, dynamic_extent>(s.subspan(C), p + C, n - C, "subspan(n)");
    look<T, dynamic_extent>(s.subspan(n - C, C), p + (n - C), C, "subspan(n, m)");
    look<T, dynamic_extent>(s.subspan((n - C) / 2, C), p + (n - C) / 2, C, "subspan(n, m)");
    look<T, C>(s.template first<C>(), p, C, "first<N>()");
    look<T, C>(s.template last<C>(), p + (n - C), C, "last<N>()");
    look<T, (E == dynamic_extent ? E : E - C)>(s.template subspan<C>(), p + C, n - C, "subspan<N>()");
    look<T, 0>(s.template subspan<C, 0>(), p + C, 0, "subspan<N, 0>()");
    look<T, C>(s.template subspan<0, C>(), p, C, "subspan<0, N>()");
    look<T, C / 2>(s.template subspan<C - C / 2, C / 2>(), p + (C - C / 2), C / 2, "subspan<N, M>()");
}
template <typename T, std::size_t E, std::size_t C>
void long_part(const Span<T, E>& s, T*, std::size_t n, Size<C>, std::false_type)
{
    refused([&] { (void) s.first(C); }, "first(n)", C, n);
    refused([&] { (void) s.last(C); }, "last(n)", C, n);
    refused([&] { (void) s.subspan(C); }, "subspan(n)", C, n);
}
template <typename T, std::size_t E, std::size_t C>
void long_case(const Span<T, E>& s, T* p, std::size_t n, std::size_t c, std::size_t cs)
{
    using Fits = std::integral_constant<bool, (E == dynamic_extent || C <= E)>;
    if (c != cs)
        return;
    note("extent %zu, %zu elements, parts of %zu", E, n, C);
    if (C <= n)
        long_part<T, E>(s, p, n, Size<C>{}, Fits{});
    else
        long_part<T, E>(s, p, n, Size<C>{}, std::false_type{});
    done(n * 200000 + C * 2 + (E == dynamic_extent));
}
template <typename T, std::size_t E, std::size_t... Cs>
void long_cases(const Span<T, E>& s, T* p, std::size_t n, Sizes<Cs...>)
{
    const std::size_t c = choose(sizeof...(Cs));
    std::size_t       i = 0;
    (void) Eater{(long_case<T, E, Cs>(s, p, n, c, i++), 0)...};
}
template <typename T, std::size_t N>
void long_span(std::size_t n, std::size_t i)
{
    if (n != i)
        return;
    Block<T>               b(N);
    const bool             fixed = choose(2) != 0;
    const Span<T>          d(b.p, N), e(b.p, b.p + N);
    const Span<T, N>       s(b.p, N), t(b.p, b.p + N), u(d);
    const Span<const T, N> v(s);
    const Span<T>          w(s);
    look<T, dynamic_extent>(d, b.p, N, "span(p, n)");
    look<T, dynamic_extent>(e, b.p, N, "span(p, q)");
    look<T, dynamic_extent>(w, b.p, N, "a dynamic copy of a static span");
    look<T, N>(s, b.p, N, "span<N>(p, n)");
    look<T, N>(t, b.p, N, "span<N>(p, q)");
    look<T, N>(u, b.p, N, "a static copy of a dynamic span");
    look<const T, N>(v, b.p, N, "a static copy for reading");
    using Raw = T[N + (N == 0)];
    Raw&                             raw = *reinterpret_cast<Raw*>(b.p);
    std::unique_ptr<std::array<T, N>> arr(new std::array<T, N>());
    if (N)
    {
        const Span<T, N + (N == 0)> x(raw);
        const Span<T>               y(raw);
        look<T, N + (N == 0)>(x, b.p, N, "span<N> of an array");
        look<T, dynamic_extent>(y, b.p, N, "span of an array");
    }
    const Span<T, N> x(*arr);
    const Span<T>    y(*arr);
    look<T, N>(x, arr->data(), N, "span<N> of a std::array");
    look<T, dynamic_extent>(y, arr->data(), N, "span of a std::array");
    if (fixed)
        long_cases<T, N>(s, b.p, N, Lengths{});
    else
        long_cases<T, dynamic_extent>(d, b.p, N, Lengths{});
}
template <typename T, std::size_t... Ns>
void long_spans(Sizes<Ns...>)
{
    const std::size_t n = choose(sizeof...(Ns));
    std::size_t       i = 0;
    (void) Eater{(long_span<T, Ns>(n, i++), 0)...};
}
MC_SCENARIO("long/char", 1, 0, 1, 0, [] { long_spans<unsigned char>(Lengths{}); });
MC_SCENARIO("long/int", 1, 0, 1, 0, [] { long_spans<int>(Lengths{}); });
MC_SCENARIO("long/big", 1, 0, 1, 0, [] { long_spans<Big>(Lengths{}); });
#else
MC_SCENARIO("conversions", 1, 0, 1, 0, ([] { conversions(std::make_integer_sequence<int, kElems>{}); }));
#endif
}  // namespace
