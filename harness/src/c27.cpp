// C27: string views against the standard (before C++17: experimental) string view.
#define MC_MAIN
#include "../resource.hpp"

#include <cetl/pf17/string_view.hpp>

#include <ostream>
#include <streambuf>
#include <string>
#if __cplusplus >= 201703L
#    include <string_view>
namespace ref = std;
#else
#    include <experimental/string_view>
namespace ref = std::experimental;
#endif

using namespace mc;
namespace
{
/// Compares without regard to case, and orders backwards.
template <typename C>
struct Folded : std::char_traits<C>
{
    static constexpr C fold(C c) { return (c >= C('A') && c <= C('Z')) ? C(c - C('A') + C('a')) : c; }
    static constexpr bool eq(C a, C b) { return fold(a) == fold(b); }
    static constexpr bool lt(C a, C b) { return fold(a) > fold(b); }
    static int compare(const C* a, const C* b, std::size_t n)
    {
        for (std::size_t i = 0; i < n; i++)
        {
            if (lt(a[i], b[i]))
                return -1;
            if (lt(b[i], a[i]))
                return 1;
        }
        return 0;
    }
    static const C* find(const C* s, std::size_t n, const C& c)
    {
        for (std::size_t i = 0; i < n; i++)
            if (eq(s[i], c))
                return s + i;
        return nullptr;
    }
};
template <typename C>
struct Alphabet
{
    static C at(unsigned i)
    {
        static const C cs[] = {C('a'), C('\0'), static_cast<C>(C(-1) < C(0) ? C(-23) : C(233)), C('b'), C('A')};
        return cs[i];
    }
};
/// A text in a block of exactly its size, so that reading outside is noticed.
template <typename C>
class Text
{
public:
    Text(unsigned letters, unsigned longest, const unsigned* which)
        : n_(choose(longest + 1))
        , p_(static_cast<C*>(std::malloc(n_ * sizeof(C) + (n_ == 0))))
    {
        for (std::size_t i = 0; i < n_; i++)
            p_[i] = Alphabet<C>::at(which[choose(letters)]);
    }
    Text(const Text&) = delete;
    ~Text() { std::free(p_); }
    const C*    data() const { return p_; }
    std::size_t size() const { return n_; }
    void        hash(Hasher& h) const { h.bytes(p_, n_ * sizeof(C)); }

private:
    std::size_t n_;
    C*          p_;
};
#if defined(__cpp_exceptions)
#    define TRY try
#    define CATCH_RANGE catch (const std::out_of_range&)
template <typename F>
bool out_of_range(F&& f)
{
    try
    {
        f();
        return false;
    }
    catch (const std::out_of_range&)
    {
        return true;
    }
}
#else
template <typename F>
bool out_of_range(F&& f)
{
    return expect_abort(f);
}
#endif
template <typename C, typename T>
struct World
{
    using V = cetl::pf17::basic_string_view<C, T>;
    using R = ref::basic_string_view<C, T>;

    static int sign(int x) { return x < 0 ? -1 : (x > 0 ? 1 : 0); }
    static void same(const V& v, const R& r, const char* what)
    {
        MC_CHECK(v.data() == r.data(), "%s: refers to other characters", what);
        MC_CHECK(v.size() == r.size() && v.length() == r.length(), "%s: size %zu, %zu expected", what, v.size(), r.size());
        MC_CHECK(v.empty() == r.empty(), "%s: empty() is wrong", what);
        MC_CHECK(v.begin() == r.data() && v.cbegin() == r.data(), "%s: begin() is wrong", what);
        MC_CHECK(v.end() == r.data() + r.size() && v.cend() == v.end(), "%s: end() is wrong", what);
        for (std::size_t i = 0; i < r.size(); i++)
        {
            MC_CHECK(&v[i] == &r[i], "%s: element %zu is another one", what, i);
            MC_CHECK(&v.at(i) == &r[i], "%s: element %zu is another one by at()", what, i);
        }
        if (!r.empty())
        {
            MC_CHECK(&v.front() == &r.front() && &v.back() == &r.back(), "%s: the first or last element is wrong", what);
        }
    }
    /// Positions and counts of interest.
    static std::vector<std::size_t> positions(std::size_t n)
    {
        std::vector<std::size_t> ps;
        for (std::size_t i = 0; i <= n + 1; i++)
            ps.push_back(i);
        ps.push_back(static_cast<std::size_t>(V::npos) - n);
        ps.push_back(static_cast<std::size_t>(V::npos) / 2);
        ps.push_back(static_cast<std::size_t>(V::npos) - 1);
        ps.push_back(static_cast<std::size_t>(V::npos));
        return ps;
    }
    template <bool Null>
    static void make(const Text<C>& t, V& v, R& r)
    {
        v = Null ? V() : V(t.data(), t.size());
        r = Null ? R() : R(t.data(), t.size());
    }

    // ------------------------------------------------------------------ operations on one text
    static void single(const unsigned* letters)
    {
        const unsigned longest = ex().depth;
        Text<C>        t(3, longest, letters);
        const bool     null = t.size() == 0 && choose(2);
        const V        v    = null ? V() : V(t.data(), t.size());
        const R        r    = null ? R() : R(t.data(), t.size());
        Hasher         h;
        t.hash(h);
        note("text of %zu%s", t.size(), null ? " (null)" : "");
        same(v, r, "the view");
        {
            V copy(v), assigned(t.data(), 0);
            assigned = copy;
            same(copy, r, "a copy");
            same(assigned, r, "an assigned view");
            V other(t.data(), 0);
            assigned.swap(other);
            same(assigned, R(t.data(), 0), "a swapped view");
            same(other, r, "a view swapped by its member");
            using std::swap;
            swap(assigned, other);
            same(assigned, r, "a view swapped by the function");
        }
        const auto ps = positions(t.size());
        for (const std::size_t pos : ps)
        {
            const bool beyond = pos >= t.size();
            MC_CHECK(out_of_range([&] { (void) v.at(pos); }) == beyond, "at(%zu) of %zu characters %s", pos, t.size(), beyond ? "did not fail" : "failed");
            for (const std::size_t count : ps)
            {
                const bool bad = pos > t.size();
                V          s;
                MC_CHECK(out_of_range([&] { s = v.substr(pos, count); }) == bad, "substr(%zu, %zu) of %zu characters %s", pos, count, t.size(), bad ? "did not fail" : "failed");
                if (!bad)
                    same(s, r.substr(pos, count), "substr()");
                // The destination is as large as can be needed.
                const std::size_t room = bad ? 0 : std::min(count, t.size() - pos);
                C* const          dest = static_cast<C*>(std::malloc(room * sizeof(C) + (room == 0)));
                std::size_t       got  = 0;
                MC_CHECK(out_of_range([&] { got = v.copy(dest, count, pos); }) == bad, "copy(p, %zu, %zu) of %zu characters %s", count, pos, t.size(),
                         bad ? "did not fail" : "failed");
                if (!bad)
                {
                    MC_CHECK(got == room, "copy(p, %zu, %zu) of %zu characters returned %zu", count, pos, t.size(), got);
                    MC_CHECK(std::memcmp(dest, t.data() + pos, room * sizeof(C)) == 0, "copy(p, %zu, %zu) of %zu characters copied wrongly", count, pos, t.size());
                }
                std::free(dest);
            }
            if (pos <= t.size())
            {
                V a(v), b(v);
                R x(r), y(r);
                a.remove_prefix(pos);
                x.remove_prefix(pos);
                same(a, x, "remove_prefix()");
                b.remove_suffix(pos);
                y.remove_suffix(pos);
                same(b, y, "remove_suffix()");
                same(v.substr(pos), r.substr(pos), "substr() without a count");
            }
            for (unsigned l = 0; l < 5; l++)
            {
                const C           c = Alphabet<C>::at(l);
                const std::size_t a = v.find(c, pos), b = r.find(c, pos);
                MC_CHECK(a == b, "find(character %u, %zu) in %zu characters: %zu, %zu expected", l, pos, t.size(), a, b);
            }
        }
        same(v.substr(), r, "substr() without arguments");
        for (unsigned l = 0; l < 5; l++)
            MC_CHECK(v.find(Alphabet<C>::at(l)) == r.find(Alphabet<C>::at(l)), "find(character %u) without a position is wrong", l);
        // From strings.
        if (!null)
        {
            const std::basic_string<C, T> s(t.data(), t.size());
            same(V(s), R(s.data(), s.size()), "a view of a string");
            const V implicit = s;
            same(implicit, R(s.data(), s.size()), "a view made implicitly of a string");
            same(V(s.c_str()), R(s.c_str()), "a view of a null-terminated string");
            const V literal = s.c_str();
            same(literal, R(s.c_str()), "a view made implicitly of a null-terminated string");
        }
        outcome(h.key());
    }
    // ------------------------------------------------------------------ operations on two texts
    static void pair(const unsigned* letters)
    {
        const unsigned longest = ex().depth;
        Text<C>        t(3, longest, letters);
        const bool     tnull = t.size() == 0 && choose(2);
        Text<C>        u(3, longest - 1, letters);
        const bool     unull = u.size() == 0 && choose(2);
        V              v, w;
        R              r, q;
        if (!tnull)
        {
            v = V(t.data(), t.size());
            r = R(t.data(), t.size());
        }
        if (!unull)
        {
            w = V(u.data(), u.size());
            q = R(u.data(), u.size());
        }
        note("text of %zu, other of %zu", t.size(), u.size());
        for (const std::size_t pos : positions(t.size()))
        {
            const std::size_t a = v.find(w, pos), b = r.find(q, pos);
            MC_CHECK(a == b, "find(%zu characters, %zu) in %zu characters: %zu, %zu expected", u.size(), pos, t.size(), a, b);
        }
        MC_CHECK(v.find(w) == r.find(q), "find() without a position is wrong");
        compare(v, w, r, q);
        compare(w, v, q, r);
        // The others convert to views.
        if (!tnull && !unull)
        {
            const std::basic_string<C, T> s(u.data(), u.size());
            const C* const                z = s.c_str();
            const R                       k(z);
            MC_CHECK((v == s) == (r == q) && (s == v) == (r == q) && (v < s) == (r < q) && (s < v) == (q < r), "comparison with a string is wrong");
            MC_CHECK((v == z) == (r == k) && (z == v) == (r == k) && (v < z) == (r < k) && (z < v) == (k < r), "comparison with a null-terminated string is wrong");
            MC_CHECK(v.find(s) == r.find(q) && v.find(z) == r.find(k), "find() of a string is wrong");
            MC_CHECK(sign(v.compare(s)) == sign(r.compare(q)) && sign(v.compare(z)) == sign(r.compare(k)), "compare() with a string is wrong");
        }
        Hasher h;
        t.hash(h);
        u.hash(h);
        outcome(h.key());
    }
    static void compare(const V& v, const V& w, const R& r, const R& q)
    {
        MC_CHECK(sign(v.compare(w)) == sign(r.compare(q)), "compare() returned %d, %d expected", v.compare(w), r.compare(q));
        MC_CHECK((v == w) == (r == q), "== is wrong");
        MC_CHECK((v != w) == (r != q), "!= is wrong");
        MC_CHECK((v < w) == (r < q), "< is wrong");
        MC_CHECK((v > w) == (r > q), "> is wrong");
        MC_CHECK((v <= w) == (r <= q), "<= is wrong");
        MC_CHECK((v >= w) == (r >= q), ">= is wrong");
    }
    // ------------------------------------------------------------------ sub-views of one text
    static void overlapping(const unsigned* letters)
    {
        Text<C>           t(2, ex().depth, letters);
        const std::size_t a = choose(static_cast<unsigned>(t.size()) + 1), n = choose(static_cast<unsigned>(t.size() - a) + 1);
        const std::size_t b = choose(static_cast<unsigned>(t.size()) + 1), m = choose(static_cast<unsigned>(t.size() - b) + 1);
        const V           v(t.data() + a, n), w(t.data() + b, m);
        const R           r(t.data() + a, n), q(t.data() + b, m);
        compare(v, w, r, q);
        for (const std::size_t pos : positions(t.size()))
            MC_CHECK(v.find(w, pos) == r.find(q, pos), "find() of a part of the same text is wrong");
        Hasher h;
        t.hash(h);
        h.u64(a * 1000 + n * 100 + b * 10 + m);
        outcome(h.key());
    }

    // ------------------------------------------------------------------ streams
    /// Takes a number of characters, then refuses or throws.
    struct Buffer : std::basic_streambuf<C, T>
    {
        std::basic_string<C, T> got;
        std::size_t             room;
        bool                    throws;
        using int_type = typename T::int_type;
        int_type overflow(int_type c) override
        {
            if (T::eq_int_type(c, T::eof()))
                return T::not_eof(c);
            if (got.size() >= room)
            {
#if defined(__cpp_exceptions)
                if (throws)
                    throw 7;
#endif
                return T::eof();
            }
            got.push_back(T::to_char_type(c));
            return c;
        }
    };
    struct Written
    {
        std::basic_string<C, T> got;
        std::ios_base::iostate  state;
        std::streamsize         width;
        C                       fill;
        std::ios_base::fmtflags flags;
        int                     thrown;
    };
    template <typename X>
    static Written write(const X& x, unsigned width, unsigned adjust, C fill, unsigned state, std::size_t room, bool throws, bool masked)
    {
        Buffer b;
        b.room   = room;
        b.throws = throws;
        std::basic_ostream<C, T> os(&b);
        static const std::ios_base::fmtflags kinds[] = {std::ios_base::fmtflags{}, std::ios_base::left, std::ios_base::right, std::ios_base::internal};
        os.setf(kinds[adjust], std::ios_base::adjustfield);
        os.fill(fill);
        os.width(static_cast<std::streamsize>(width));
        static const std::ios_base::iostate states[] = {std::ios_base::goodbit, std::ios_base::eofbit, std::ios_base::failbit, std::ios_base::badbit};
        if (states[state] != std::ios_base::goodbit)
            os.setstate(states[state]);
        Written w;
        w.thrown = 0;
#if defined(__cpp_exceptions)
        try
        {
            if (masked)
                os.exceptions(std::ios_base::badbit | std::ios_base::failbit);
            os << x;
            os << x;  // The width applies to the first one only.
        }
        catch (const std::ios_base::failure&)
        {
            w.thrown = 1;
        }
        catch (int)
        {
            w.thrown = 2;
        }
#else
        (void) masked;
        os << x;
        os << x;
#endif
        w.got   = b.got;
        w.state = os.rdstate();
        w.width = os.width();
        w.fill  = os.fill();
        w.flags = os.flags();
        return w;
    }
    static void stream(const unsigned* letters)
    {
        const unsigned longest = ex().depth;
        Text<C>        t(2, longest, letters);
        const bool     null   = t.size() == 0 && choose(2);
        const unsigned width  = choose(longest + 3);
        const unsigned adjust = choose(4);
        const C        fill   = choose(2) ? C('*') : C(' ');
        const unsigned state  = choose(4);
        const unsigned rooms  = 2 * longest + 3;
        unsigned       room   = choose(rooms + 1);
        const bool     throws = room < rooms && choose(2);
        const bool     masked = state == 0 && choose(2);
        if (room == rooms)
            room = 1000;
        const V                       v = null ? V() : V(t.data(), t.size());
        const std::basic_string<C, T> s(t.data(), t.size());
        note("output of %zu characters, width %u, adjustment %u, fill '%c', state %u, room for %u%s%s", t.size(), width, adjust, static_cast<char>(fill), state, room, throws ? ", then throws" : "",
             masked ? ", exceptions enabled" : "");
        const Written a = write(v, width, adjust, fill, state, room, throws, masked);
        const Written e = write(s, width, adjust, fill, state, room, throws, masked);
        MC_CHECK(a.got.size() == e.got.size() && std::memcmp(a.got.data(), e.got.data(), e.got.size() * sizeof(C)) == 0, "other text was written: %zu characters, %zu expected", a.got.size(), e.got.size());
        MC_CHECK(a.state == e.state, "the state of the stream is %d, %d expected", static_cast<int>(a.state), static_cast<int>(e.state));
        if (!throws)  // the standard leaves open whether the width is kept then
            MC_CHECK(a.width == e.width, "the width is %d afterwards, %d expected", static_cast<int>(a.width), static_cast<int>(e.width));
        MC_CHECK(a.fill == e.fill && a.flags == e.flags, "the format was changed");
        MC_CHECK(a.thrown == e.thrown, "exception of kind %d, %d expected", a.thrown, e.thrown);
        Hasher h;
        h.bytes(a.got.data(), a.got.size() * sizeof(C));
        h.u64(width * 64 + adjust * 16 + state * 4 + static_cast<unsigned>(a.state));
        outcome(h.key());
    }
};
const unsigned kAny[]  = {0, 1, 2};  // a, zero, above 127
const unsigned kCase[] = {0, 4, 3};  // a, A, b
template <typename C>
void types()
{
    using V = cetl::pf17::basic_string_view<C>;
    MC_CHECK((std::is_convertible<const C*, V>::value), "not made implicitly of a pointer");
    MC_CHECK((std::is_convertible<std::basic_string<C>, V>::value), "not made implicitly of a string");
    MC_CHECK((std::is_convertible<const C(&)[3], V>::value), "not made implicitly of a literal");
    MC_CHECK((!std::is_constructible<V, std::nullptr_t>::value), "made of nullptr");
    MC_CHECK((!std::is_constructible<V, C>::value), "made of a character");
    MC_CHECK((!std::is_constructible<V, std::basic_string<C, Folded<C>>>::value), "made of a string with other traits");
    MC_CHECK((!std::is_convertible<V, std::basic_string<C>>::value), "makes strings implicitly");
    MC_CHECK((std::is_trivially_copyable<V>::value), "not trivially copyable");
    MC_CHECK((std::is_same<typename V::value_type, C>::value && std::is_same<typename V::traits_type, std::char_traits<C>>::value), "wrong member types");
    MC_CHECK((std::is_same<typename V::const_iterator, typename V::iterator>::value && std::is_same<decltype(std::declval<V&>()[0]), const C&>::value), "elements can be modified");
    MC_CHECK(static_cast<std::size_t>(V::npos) == std::basic_string<C>::npos, "npos is wrong");
    constexpr V e;
    MC_CHECK(e.data() == nullptr && e.size() == 0, "the default view is not null");
    outcome(Hasher().key());
}
#if PART == 0
MC_SCENARIO("single/char", 6, 0, 7, 0, ([] { World<char, std::char_traits<char>>::single(kAny); }));
MC_SCENARIO("single/folded", 4, 0, 6, 0, ([] { World<char, Folded<char>>::single(kCase); }));
MC_SCENARIO("single/wchar_t", 4, 0, 6, 0, ([] { World<wchar_t, std::char_traits<wchar_t>>::single(kAny); }));
MC_SCENARIO("single/char16_t", 4, 0, 6, 0, ([] { World<char16_t, std::char_traits<char16_t>>::single(kAny); }));
MC_SCENARIO("single/char32_t", 4, 0, 6, 0, ([] { World<char32_t, Folded<char32_t>>::single(kCase); }));
MC_SCENARIO("overlapping/char", 5, 0, 7, 0, ([] { World<char, std::char_traits<char>>::overlapping(kAny); }));
MC_SCENARIO("types", 1, 0, 1, 0, ([] {
                switch (choose(4))
                {
                case 0: types<char>(); break;
                case 1: types<wchar_t>(); break;
                case 2: types<char16_t>(); break;
                default: types<char32_t>(); break;
                }
            }));
#elif PART == 1
MC_SCENARIO("pair/char", 6, 0, 7, 0, ([] { World<char, std::char_traits<char>>::pair(kAny); }));
MC_SCENARIO("pair/folded", 6, 0, 7, 0, ([] { World<char, Folded<char>>::pair(kCase); }));
MC_SCENARIO("pair/wchar_t", 4, 0, 6, 0, ([] { World<wchar_t, std::char_traits<wchar_t>>::pair(kAny); }));
MC_SCENARIO("pair/char16_t", 4, 0, 6, 0, ([] { World<char16_t, std::char_traits<char16_t>>::pair(kAny); }));
MC_SCENARIO("pair/char32_t", 4, 0, 6, 0, ([] { World<char32_t, Folded<char32_t>>::pair(kCase); }));
#elif PART == 3
/// Long texts: two texts of one letter that differ at one place.
template <typename C, typename T>
void lengths()
{
    using V = cetl::pf17::basic_string_view<C, T>;
    using R = ref::basic_string_view<C, T>;
    static const std::size_t lens[] = {0, 1, 2, 31, 32, 33, 127, 128, 129, 255, 256, 257, 300, 1000, 32767, 32768, 65535, 65536, 65537, 70000};
    constexpr unsigned       count  = sizeof lens / sizeof *lens;
    const std::size_t        n = lens[choose(count)], m = lens[choose(count)];
    const unsigned           where = choose(4);
    const std::size_t        place = where == 0 ? 0 : where == 1 ? n / 2 : where == 2 ? (n == 0 ? 0 : n - 1) : n;
    std::vector<C>           s(n, C('a')), t(m, C('a'));
    if (place < n)
        s[place] = C('b');
    note("text of %zu characters, the one at %zu differs, against one of %zu", n, place, m);
    s.shrink_to_fit();
    const V a(s.data(), n), b(t.data(), m);
    const R x(s.data(), n), y(t.data(), m);
    auto    sign = [](int i) { return i < 0 ? -1 : (i > 0 ? 1 : 0); };
    MC_CHECK(a.size() == n && a.length() == n && a.data() == s.data() && a.empty() == (n == 0) && static_cast<std::size_t>(a.end() - a.begin()) == n, "size() is %zu", a.size());
    MC_CHECK(sign(a.compare(b)) == sign(x.compare(y)) && sign(b.compare(a)) == sign(y.compare(x)), "compare() is %d, %d expected", a.compare(b), x.compare(y));
    MC_CHECK((a == b) == (x == y) && (a != b) == (x != y) && (a < b) == (x < y) && (a > b) == (x > y) && (a <= b) == (x <= y) && (a >= b) == (x >= y), "comparison is wrong");
    const std::size_t pos = m <= n ? m : n;
    MC_CHECK(a.find(C('b')) == x.find(C('b')) && a.find(C('b'), m) == x.find(C('b'), m) && a.find(C('a'), m) == x.find(C('a'), m), "a letter is found at %zu, %zu expected", a.find(C('b')), x.find(C('b')));
    if (n * (m + 1) < 3000000)
        MC_CHECK(a.find(b) == x.find(y) && a.find(b, m / 2) == x.find(y, m / 2), "a text is found at %zu, %zu expected", a.find(b), x.find(y));
    {
        const V c = a.substr(pos, m);
        const R d = x.substr(pos, m);
        MC_CHECK(c.data() == d.data() && c.size() == d.size(), "substr() has %zu characters, %zu expected", c.size(), d.size());
        V e = a, f = a;
        e.remove_prefix(pos);
        f.remove_suffix(pos);
        MC_CHECK(e.data() == s.data() + pos && e.size() == n - pos && f.data() == s.data() && f.size() == n - pos, "trimming is wrong");
        MC_CHECK(a.substr(n - pos).size() == pos, "the tail is wrong");
    }
    std::vector<C>    to(m + 1, C('#')), expected(m + 1, C('#'));
    const std::size_t got = a.copy(to.data(), m), want = x.copy(expected.data(), m);
    MC_CHECK(got == want && to == expected, "copy() copies %zu characters, %zu expected", got, want);
    transition();
    Hasher h;
    h.u64(n * 100000 + m);
    h.u64(where);
    outcome(h.key());
}
MC_SCENARIO("lengths/char", 0, 0, 0, 0, (&lengths<char, std::char_traits<char>>));
MC_SCENARIO("lengths/wchar_t", 0, 0, 0, 0, (&lengths<wchar_t, std::char_traits<wchar_t>>));
MC_SCENARIO("lengths/char16_t", 0, 0, 0, 0, (&lengths<char16_t, std::char_traits<char16_t>>));
#else
MC_SCENARIO("stream/char", 3, 0, 5, 0, ([] { World<char, std::char_traits<char>>::stream(kAny); }));
MC_SCENARIO("stream/wchar_t", 3, 0, 5, 0, ([] { World<wchar_t, std::char_traits<wchar_t>>::stream(kAny); }));
MC_SCENARIO("stream/folded", 2, 0, 3, 0, ([] { World<char, Folded<char>>::stream(kCase); }));
#endif
}  // namespace
