// Perfect forwarding: which arguments a constructor is called with, and in which value category.
#pragma once
#include "../mc.hpp"
#include <initializer_list>
#include <memory>
#include <type_traits>
#include <utility>

namespace mc
{
namespace fwd
{
struct Tag final
{
    int id;
};
/// Remembers the arguments it was made from.
struct Sink
{
    int         n      = -1;
    int         ilsize = -1;
    int         cat[3] = {-1, -1, -1};
    const Tag*  addr[3] = {nullptr, nullptr, nullptr};

    template <typename T>
    static constexpr int category()
    {
        return (std::is_lvalue_reference<T>::value ? 0 : 2) + (std::is_const<std::remove_reference_t<T>>::value ? 1 : 0);
    }
    void add() {}
    template <typename H, typename... R>
    void add(H&& h, R&&... r)
    {
        cat[n]  = category<H&&>();
        addr[n] = std::addressof(h);
        n++;
        add(std::forward<R>(r)...);
    }
    template <typename... A>
    struct Tags : std::true_type
    {};
    template <typename H, typename... R>
    struct Tags<H, R...> : std::integral_constant<bool, std::is_same<std::decay_t<H>, Tag>::value && Tags<R...>::value>
    {};
    Sink()
        : n(0)
    {
    }
    template <typename H, typename... R, std::enable_if_t<Tags<H, R...>::value, int> = 0>
    explicit Sink(H&& h, R&&... r)
        : n(0)
    {
        add(std::forward<H>(h), std::forward<R>(r)...);
    }
    template <typename... A, std::enable_if_t<Tags<A...>::value, int> = 0>
    explicit Sink(std::initializer_list<int> il, A&&... a)
        : n(0)
        , ilsize(static_cast<int>(il.size()))
    {
        add(std::forward<A>(a)...);
    }
    Sink(const Sink&)            = default;
    Sink& operator=(const Sink&) = default;
};
template <int C>
std::enable_if_t<C == 0, Tag&> as(Tag& t) { return t; }
template <int C>
std::enable_if_t<C == 1, const Tag&> as(Tag& t) { return t; }
template <int C>
std::enable_if_t<C == 2, Tag&&> as(Tag& t) { return std::move(t); }
template <int C>
std::enable_if_t<C == 3, const Tag&&> as(Tag& t) { return std::move(const_cast<const Tag&>(t)); }

inline void verify(const char* form, const Sink& s, int n, int il, int c0, const Tag* t0, int c1, const Tag* t1, int c2, const Tag* t2)
{
    note("%s with %d arguments in categories %d %d %d", form, n, c0, c1, c2);
    MC_CHECK(s.n == n && s.ilsize == il, "%s: made from %d arguments (list of %d), %d given (list of %d)", form, s.n, s.ilsize, n, il);
    const int        c[3] = {c0, c1, c2};
    const Tag* const t[3] = {t0, t1, t2};
    for (int i = 0; i < n; i++)
    {
        MC_CHECK(s.addr[i] == t[i], "%s: argument %d of %d is another object", form, i, n);
        MC_CHECK(s.cat[i] == c[i], "%s: argument %d of %d arrives in category %d instead of %d", form, i, n, s.cat[i], c[i]);
    }
    Hasher h;
    for (const char* p = form; *p != 0; p++)
        h.u64(static_cast<std::uint64_t>(*p));
    h.u64(static_cast<std::uint64_t>(n * 1000 + c0 * 100 + c1 * 10 + c2));
    outcome(h.key());
    transition();
}
/// f(arguments...) returns the Sink made from them; every number 0..3 of arguments, every category of each.
template <int I, typename F>
void each3(const char* form, int il, F& f, Tag& a, Tag& b, Tag& c)
{
    verify(form, f(as<I / 16>(a), as<I / 4 % 4>(b), as<I % 4>(c)), 3, il, I / 16, &a, I / 4 % 4, &b, I % 4, &c);
}
template <int I, typename F>
void each2(const char* form, int il, F& f, Tag& a, Tag& b)
{
    verify(form, f(as<I / 4>(a), as<I % 4>(b)), 2, il, I / 4, &a, I % 4, &b, 0, nullptr);
}
template <int I, typename F>
void each1(const char* form, int il, F& f, Tag& a)
{
    verify(form, f(as<I>(a)), 1, il, I, &a, 0, nullptr, 0, nullptr);
}
template <typename F, std::size_t... I1, std::size_t... I2, std::size_t... I3>
void each(const char* form, int il, F& f, std::index_sequence<I1...>, std::index_sequence<I2...>, std::index_sequence<I3...>)
{
    Tag a{1}, b{2}, c{3};
    verify(form, f(), 0, il, 0, nullptr, 0, nullptr, 0, nullptr);
    const int u[] = {(each1<static_cast<int>(I1)>(form, il, f, a), 0)..., (each2<static_cast<int>(I2)>(form, il, f, a, b), 0)...,
                     (each3<static_cast<int>(I3)>(form, il, f, a, b, c), 0)...};
    (void) u;
}
template <typename F>
void every(const char* form, F f, int il = -1)
{
    each(form, il, f, std::make_index_sequence<4>{}, std::make_index_sequence<16>{}, std::make_index_sequence<64>{});
}
#define FWD_LAMBDA [&](auto&&... x) -> ::mc::fwd::Sink
#define FWD_ARGS std::forward<decltype(x)>(x)...
}  // namespace fwd
}  // namespace mc
