// C26: comparisons of variants.
#define MC_MAIN
#include "cmp.hpp"

#include <cetl/pf17/variant.hpp>

#include <limits>
#if __cplusplus >= 201703L
#    include <variant>
#endif

using namespace mc;
using namespace mc::cmp;
using cetl::pf17::get_if;
using cetl::pf17::monostate;
using cetl::pf17::variant;
namespace
{
/// Cannot be made, so that whoever tries is left without a value.
struct Bomb
{
    explicit Bomb(int)
    {
#if defined(__cpp_exceptions)
        throw Injected{1};
#endif
    }
    Bomb(const Bomb&) noexcept(false) {}
    friend bool operator==(const Bomb&, const Bomb&) { return true; }
    friend bool operator!=(const Bomb&, const Bomb&) { return false; }
    friend bool operator<(const Bomb&, const Bomb&) { return false; }
    friend bool operator>(const Bomb&, const Bomb&) { return false; }
    friend bool operator<=(const Bomb&, const Bomb&) { return true; }
    friend bool operator>=(const Bomb&, const Bomb&) { return true; }
};
#if defined(__cpp_exceptions)
constexpr unsigned kEmptyStates = 1;
#else
constexpr unsigned kEmptyStates = 0;
#endif
template <std::size_t I, typename V>
void lose(V& v)
{
#if defined(__cpp_exceptions)
    try
    {
        v.template emplace<I>(-1);
    } catch (const Injected&)
    {
    }
#endif
    MC_CHECK(v.valueless_by_exception(), "a failed emplacement keeps a value");
}
void done(int op, std::uint64_t state, bool result)
{
    Hasher h;
    h.u64(static_cast<std::uint64_t>(op));
    h.u64(state);
    h.u64(result ? 1 : 0);
    outcome(h.key());
}
// ------------------------------------------------------------------------------------------------
template <typename R>
void symbolic()
{
    using X           = variant<Sym<R, 0>, Sym<R, 1>, Sym<R, 0>, Sym<R, 2>>;
    const int      op = static_cast<int>(choose(kOps));
    const unsigned i = choose(4 + kEmptyStates), j = choose(4 + kEmptyStates);
    const bool     same = i == j && choose(2) == 1;
    log().calls         = 0;
    log().answer        = choose(2) == 1;
    X    x(cetl::pf17::in_place_index_t<0>{}, 1), y(cetl::pf17::in_place_index_t<0>{}, 2);
    auto put = [](X& v, unsigned k, int val) {
        switch (k)
        {
        case 0: v.template emplace<0>(val); break;
        case 1: v.template emplace<1>(val); break;
        case 2: v.template emplace<2>(val); break;
        case 3: v.template emplace<3>(val); break;
        default: lose<1>(v);
        }
    };
    put(x, i, 1);
    put(y, j, 2);
    const X& z = same ? x : y;
    note("%s of alternatives %u and %u%s, values answer %d", op_name(op), i, j, same ? " (the same)" : "", log().answer);
    check_types(x, z);
    const bool got = apply(op, x, z);
    if (i == j && i < 4)
    {
        auto at = [](const X& v) -> const void* {
            switch (v.index())
            {
            case 0: return get_if<0>(&v);
            case 1: return get_if<1>(&v);
            case 2: return get_if<2>(&v);
            default: return get_if<3>(&v);
            }
        };
        MC_CHECK(log().calls == 1, "%d operators of the values were called", log().calls);
        MC_CHECK(log().op == op, "operator %s of the values was called", op_name(log().op));
        MC_CHECK(log().l == at(x) && log().r == at(z), "other operands were compared");
        MC_CHECK(got == log().answer, "the result is %d", got);
    }
    else
    {
        MC_CHECK(log().calls == 0, "an operator of the values was called");
        MC_CHECK(got == apply(op, i == 4 ? -1 : static_cast<int>(i), j == 4 ? -1 : static_cast<int>(j)), "the result is %d", got);
    }
    done(op, i * 16 + j + (same ? 256 : 0), got);
}
// ------------------------------------------------------------------------------------------------
struct Number
{
    int    idx;  // -1: none
    double v;
};
Number number(unsigned i)
{
    static const Number n[] = {{0, 0},
                               {1, std::numeric_limits<double>::quiet_NaN()},
                               {1, -1},
                               {1, 0.0},
                               {1, -0.0},
                               {1, std::numeric_limits<double>::infinity()},
                               {2, -1},
                               {2, 0},
                               {2, 1},
                               {3, -1},
                               {3, 0},
                               {3, 1},
                               {-1, 0}};
    return n[i];
}
template <typename V>
void put(V& v, const Number& n)
{
    switch (n.idx)
    {
    case 0: v.template emplace<0>(); break;
    case 1: v.template emplace<1>(n.v); break;
    case 2: v.template emplace<2>(static_cast<int>(n.v)); break;
    case 3: v.template emplace<3>(static_cast<int>(n.v)); break;
    default: lose<4>(v);
    }
}
void numbers()
{
    using X           = variant<monostate, double, int, int, Bomb>;
    const int      op = static_cast<int>(choose(kOps));
    const unsigned i = choose(12 + kEmptyStates), j = choose(12 + kEmptyStates);
    const Number   a = number(i), b = number(j);
    X              x, y;
    put(x, a);
    put(y, b);
    note("%s of (%d, %g) and (%d, %g)", op_name(op), a.idx, a.v, b.idx, b.v);
    check_types(x, y);
    const bool got = apply(op, x, y);
    const bool e   = a.idx == b.idx && a.idx > 0 ? apply(op, a.v, b.v) : apply(op, a.idx, b.idx);
    MC_CHECK(got == e, "the result is %d", got);
#if __cplusplus >= 201703L
    std::variant<std::monostate, double, int, int, Bomb> sx, sy;
    put(sx, a);
    put(sy, b);
    MC_CHECK(got == apply(op, sx, sy), "the standard variant gives %d", apply(op, sx, sy));
#endif
    done(op, i * 16 + j, got);
}
void monostates()
{
    const int  op = static_cast<int>(choose(kOps));
    const auto a = monostate{}, b = monostate{};
    note("monostate %s monostate", op_name(op));
    check_types(a, b);
    const bool got = apply(op, a, b);
    MC_CHECK(got == apply(op, 0, 0), "the result is %d", got);
    static_assert(monostate{} == monostate{} && monostate{} <= monostate{} && monostate{} >= monostate{}, "");
    static_assert(!(monostate{} != monostate{}) && !(monostate{} < monostate{}) && !(monostate{} > monostate{}), "");
    done(op, 0, got);
}
/// Only equality and less exist, which must do for the same comparisons of the variants.
void basic()
{
    using X           = variant<Basic, int, Basic>;
    const bool     eq = choose(2) == 1;
    const unsigned i = choose(6), j = choose(6);
    X              x(cetl::pf17::in_place_index_t<0>{}, 0), y(cetl::pf17::in_place_index_t<0>{}, 0);
    auto           set = [](X& v, unsigned k) {
        const int n = static_cast<int>(k % 2);
        if (k / 2 == 0)
            v.emplace<0>(n);
        else if (k / 2 == 1)
            v.emplace<1>(n);
        else
            v.emplace<2>(n);
    };
    set(x, i);
    set(y, j);
    note("%s of states %u and %u", eq ? "==" : "<", i, j);
    const bool got = eq ? x == y : x < y;
    MC_CHECK(got == (eq ? i == j : i < j), "the result is %d", got);
    done(eq ? kEq : kLt, i * 16 + j, got);
}
MC_SCENARIO("symbolic", 1, 0, 1, 0, &symbolic<bool>);
MC_SCENARIO("symbolic-boolish", 1, 0, 1, 0, &symbolic<Boolish>);
MC_SCENARIO("numbers", 1, 0, 1, 0, &numbers);
MC_SCENARIO("monostate", 1, 0, 1, 0, &monostates);
MC_SCENARIO("basic", 1, 0, 1, 0, &basic);
}  // namespace
