// Values whose comparison operators record themselves (C21, C26).
#ifndef CMP_HPP
#define CMP_HPP

#include "../resource.hpp"

namespace mc
{
namespace cmp
{
enum Op
{
    kEq,
    kNe,
    kLt,
    kGt,
    kLe,
    kGe,
    kOps
};
inline const char* op_name(int op)
{
    static const char* n[] = {"==", "!=", "<", ">", "<=", ">="};
    return n[op];
}
/// Which operator ran and what it answers.
struct Log
{
    int         calls, op;
    const void *l, *r;
    bool        answer;
};
inline Log& log()
{
    static Log l;
    return l;
}
template <typename R, typename A, typename B>
inline R record(int op, const A& a, const B& b)
{
    log().calls++;
    log().op = op;
    log().l  = &a;
    log().r  = &b;
    return R(log().answer);
}
/// A result that is no bool but can be taken for one.
struct Boolish
{
    explicit Boolish(bool x) : b(x) {}
    operator bool() const { return b; }
    bool operator!() const = delete;

private:
    bool b;
};
/// Neither ordered nor equal in any sense, and cannot be copied.
template <typename R, int Tag>
struct Sym
{
    using result = R;
    explicit Sym(int x) : v(x)
    {
#if defined(__cpp_exceptions)
        if (x < 0)
            throw Injected{1};
#endif
    }
    Sym(const Sym&)            = delete;
    Sym& operator=(const Sym&) = delete;
    int  v;
};
#define SYM_OP(sym, op)                                          \
    template <typename R, int A, int B>                          \
    inline R operator sym(const Sym<R, A>& a, const Sym<R, B>& b) \
    {                                                            \
        return record<R>(op, a, b);                              \
    }
SYM_OP(==, kEq)
SYM_OP(!=, kNe)
SYM_OP(<, kLt)
SYM_OP(>, kGt)
SYM_OP(<=, kLe)
SYM_OP(>=, kGe)
#undef SYM_OP

/// Has the two basic operators only.
struct Basic
{
    explicit Basic(int x) : v(x) {}
    int         v;
    friend bool operator==(const Basic& a, const Basic& b) { return a.v == b.v; }
    friend bool operator<(const Basic& a, const Basic& b) { return a.v < b.v; }
};
/// The six operators on whatever.
template <typename A, typename B>
inline bool apply(int op, const A& a, const B& b)
{
    switch (op)
    {
    case kEq: return a == b;
    case kNe: return a != b;
    case kLt: return a < b;
    case kGt: return a > b;
    case kLe: return a <= b;
    default: return a >= b;
    }
}
template <typename A, typename B>
inline void check_types(const A& a, const B& b)
{
    static_assert(std::is_same<decltype(a == b), bool>::value, "");
    static_assert(std::is_same<decltype(a != b), bool>::value, "");
    static_assert(std::is_same<decltype(a < b), bool>::value, "");
    static_assert(std::is_same<decltype(a > b), bool>::value, "");
    static_assert(std::is_same<decltype(a <= b), bool>::value, "");
    static_assert(std::is_same<decltype(a >= b), bool>::value, "");
}
}  // namespace cmp
}  // namespace mc
#endif
