// C21: comparisons of optionals.
#define MC_MAIN
#include "cmp.hpp"

#include <cetl/pf17/optional.hpp>

#include <limits>
#include <memory>
#if __cplusplus >= 201703L
#    include <optional>
#endif

using namespace mc;
using namespace mc::cmp;
using cetl::pf17::in_place;
using cetl::pf17::nullopt;
using cetl::pf17::optional;
namespace
{
enum Form
{
    kOptOpt,
    kOptNone,
    kNoneOpt,
    kOptVal,
    kValOpt,
    kForms
};
const char* const form_names[] = {"optional ? optional", "optional ? nullopt", "nullopt ? optional", "optional ? value", "value ? optional"};

void done(int op, int form, std::uint64_t state, bool result)
{
    Hasher h;
    h.u64(static_cast<std::uint64_t>(op));
    h.u64(static_cast<std::uint64_t>(form));
    h.u64(state);
    h.u64(result ? 1 : 0);
    outcome(h.key());
}
/// Compares a and b, each empty (null) or with a value, in the given form.
template <typename A, typename B>
bool evaluate(int op, int form, const optional<A>& x, const optional<B>& y, const A& a, const B& b)
{
    check_types(x, y);
    check_types(x, nullopt);
    check_types(nullopt, x);
    check_types(x, b);
    check_types(a, y);
    switch (form)
    {
    case kOptOpt: return apply(op, x, y);
    case kOptNone: return apply(op, x, nullopt);
    case kNoneOpt: return apply(op, nullopt, y);
    case kOptVal: return apply(op, x, b);
    default: return apply(op, a, y);
    }
}
template <typename A, typename B>
void symbolic()
{
    const int  op = static_cast<int>(choose(kOps)), form = static_cast<int>(choose(kForms));
    const bool has_x = choose(2) == 1, has_y = choose(2) == 1, same = std::is_same<A, B>::value && form == kOptOpt && choose(2) == 1;
    log().calls      = 0;
    log().answer     = choose(2) == 1;
    const A     a(1);
    const B     b(2);
    optional<A> x;
    optional<B> y;
    if (has_x)
        x.emplace(3);
    if (has_y)
        y.emplace(4);
    const optional<B>& z = same ? reinterpret_cast<const optional<B>&>(x) : y;
    const bool  l = form == kNoneOpt ? false : form == kValOpt ? true : has_x;
    const bool  r = form == kOptNone ? false : form == kOptVal ? true : same ? has_x : has_y;
    note("%s with %s, %d and %d%s, values answer %d", form_names[form], op_name(op), l, r, same ? " (the same)" : "", log().answer);
    const bool got = evaluate(op, form, x, z, a, b);
    if (l && r)
    {
        const void* pl = form == kValOpt ? static_cast<const void*>(&a) : &*x;
        const void* pr = form == kOptVal ? static_cast<const void*>(&b) : &*z;
        MC_CHECK(log().calls == 1, "%d operators of the values were called", log().calls);
        MC_CHECK(log().op == op, "operator %s of the values was called", op_name(log().op));
        MC_CHECK(log().l == pl && log().r == pr, "other operands were compared");
        MC_CHECK(got == log().answer, "the result is %d", got);
    }
    else
    {
        MC_CHECK(log().calls == 0, "an operator of the values was called");
        MC_CHECK(got == apply(op, l, r), "the result is %d", got);
    }
    done(op, form, (l ? 2U : 0U) | (r ? 1U : 0U) | (same ? 4U : 0U), got);
}
/// Values that are compared for real; the last state is empty.
template <typename A, typename B, typename MakeA, typename MakeB>
void concrete(unsigned n, MakeA make_a, MakeB make_b)
{
    const int      op = static_cast<int>(choose(kOps)), form = static_cast<int>(choose(kForms));
    const unsigned i = choose(n + 1), j = choose(n + 1);
    const A        a = make_a(i % n);
    const B        b = make_b(j % n);
    optional<A>    x;
    optional<B>    y;
    if (i < n)
        x.emplace(a);
    if (j < n)
        y.emplace(b);
    const bool l = form == kNoneOpt ? false : form == kValOpt ? true : i < n;
    const bool r = form == kOptNone ? false : form == kOptVal ? true : j < n;
    note("%s with %s, states %u and %u", form_names[form], op_name(op), i, j);
    const bool got = evaluate(op, form, x, y, a, b);
    const bool e   = l && r ? apply(op, a, b) : apply(op, l, r);
    MC_CHECK(got == e, "the result is %d", got);
#if __cplusplus >= 201703L
    std::optional<A> sx;
    std::optional<B> sy;
    if (i < n)
        sx.emplace(a);
    if (j < n)
        sy.emplace(b);
    bool ref = false;
    switch (form)
    {
    case kOptOpt: ref = apply(op, sx, sy); break;
    case kOptNone: ref = apply(op, sx, std::nullopt); break;
    case kNoneOpt: ref = apply(op, std::nullopt, sy); break;
    case kOptVal: ref = apply(op, sx, b); break;
    default: ref = apply(op, a, sy);
    }
    MC_CHECK(got == ref, "the standard optional gives %d", ref);
#endif
    done(op, form, i * 16 + j, got);
}
double number(unsigned i)
{
    static const double v[] = {std::numeric_limits<double>::quiet_NaN(), -1, 0, -0.0, 1, std::numeric_limits<double>::infinity()};
    return v[i];
}
void doubles() { concrete<double, double>(6, number, number); }
void mixed() { concrete<float, double>(6, [](unsigned i) { return static_cast<float>(number(i)); }, number); }
void ints() { concrete<int, long>(4, [](unsigned i) { return static_cast<int>(i) - 2; }, [](unsigned i) { return static_cast<long>(i) - 2; }); }
void pointers()
{
    static int v[3];
    concrete<const int*, int*>(4, [](unsigned i) { return i == 3 ? nullptr : static_cast<const int*>(v + i); }, [](unsigned i) { return i == 3 ? nullptr : v + i; });
}
/// Only equality and less exist, which must do for the same comparisons of the optionals.
void basic()
{
    const bool      eq = choose(2) == 1;
    const int       op = eq ? kEq : kLt, form = static_cast<int>(choose(kForms));
    const int       i = static_cast<int>(choose(4)), j = static_cast<int>(choose(4));
    const Basic     a(i), b(j);
    optional<Basic> x, y;
    if (i < 3)
        x.emplace(i);
    if (j < 3)
        y.emplace(j);
    const bool l = form == kNoneOpt ? false : form == kValOpt ? true : i < 3;
    const bool r = form == kOptNone ? false : form == kOptVal ? true : j < 3;
    note("%s with %s, states %d and %d", form_names[form], op_name(op), i, j);
    bool got = false;
    switch (form)
    {
    case kOptOpt: got = eq ? x == y : x < y; break;
    case kOptNone: got = apply(op, x, nullopt); break;
    case kNoneOpt: got = apply(op, nullopt, y); break;
    case kOptVal: got = eq ? x == b : x < b; break;
    default: got = eq ? a == y : a < y;
    }
    MC_CHECK(got == (l && r ? apply(op, i, j) : apply(op, l, r)), "the result is %d", got);
    done(op, form, static_cast<std::uint64_t>(i * 16 + j), got);
}
/// An optional of an optional compared with the inner one.
void nested()
{
    using O            = optional<int>;
    const int      op  = static_cast<int>(choose(kOps));
    const unsigned i   = choose(4), j = choose(3);  // none, engaged empty, 1, 2
    optional<O>    x;
    O              y;
    if (i == 1)
        x.emplace();
    else if (i > 1)
        x.emplace(static_cast<int>(i));
    if (j > 0)
        y = static_cast<int>(j + 1);
    note("nested %s, states %u and %u", op_name(op), i, j);
    const int  l = static_cast<int>(i), r = static_cast<int>(j) + 1;
    const bool a = apply(op, x, optional<O>(in_place, y));
    MC_CHECK(a == apply(op, l, r), "the result is %d", a);
    done(op, 9, i * 16 + j, a);
}
MC_SCENARIO("symbolic", 1, 0, 1, 0, (&symbolic<Sym<bool, 0>, Sym<bool, 0>>));
MC_SCENARIO("symbolic-mixed", 1, 0, 1, 0, (&symbolic<Sym<bool, 0>, Sym<bool, 1>>));
MC_SCENARIO("symbolic-boolish", 1, 0, 1, 0, (&symbolic<Sym<Boolish, 0>, Sym<Boolish, 0>>));
MC_SCENARIO("symbolic-boolish-mixed", 1, 0, 1, 0, (&symbolic<Sym<Boolish, 0>, Sym<Boolish, 1>>));
MC_SCENARIO("double", 1, 0, 1, 0, &doubles);
MC_SCENARIO("float-double", 1, 0, 1, 0, &mixed);
MC_SCENARIO("int-long", 1, 0, 1, 0, &ints);
MC_SCENARIO("pointers", 1, 0, 1, 0, &pointers);
MC_SCENARIO("basic", 1, 0, 1, 0, &basic);
MC_SCENARIO("nested", 1, 0, 1, 0, &nested);
}  // namespace
