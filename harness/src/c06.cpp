// C06: an array of bits behaves as a plain sequence of bools, wherever its length falls in a byte.
#define MC_MAIN
#include "vla.hpp"
#include <iterator>
using namespace vla;
//                 nmax vals two  transf recr  alias limits lmax allocs alim init initb
static Cfg one   = {18, 2, false, false, false, true, false, 0, 1, 0, 17, 0};
static Cfg both  = {10, 2, true, true, true, false, false, 0, 2, 0, 17, 17};
static Cfg small = {9, 2, true, true, false, false, false, 0, 2, 0, 9, 9};
static Cfg wide  = {72, 2, false, false, false, true, false, 0, 1, 0, 72, 0};
static Cfg large = {1, 2, false, false, true, true, false, 0, 1, 0, 1025, 0, kLong, kNLong};
static Cfg wideboth = {1, 2, true, true, true, false, false, 0, 2, 0, 40, 40};
static Cfg largeboth = {1, 2, true, true, true, false, false, 0, 1, 0, 1025, 1025, kFew, kNFew};

using A = Alloc<bool>;
using V = cetl::VariableLengthArray<bool, A>;

/// Equality, iterators and element access of every pair of bit patterns up to a length.
static void pairs()
{
    const int   maxlen = ex().depth;
    const int   n1     = range(0, maxlen);
    const int   p1     = static_cast<int>(choose(1U << n1));
    const int   n2     = range(0, maxlen);
    Slot<V>     a, b, c;
    auto        fill = [](Slot<V>& s, int n, int p) {
        s.make(std::numeric_limits<std::size_t>::max(), A(0));
        for (int i = 0; i < n; i++)
            s->push_back(((p >> i) & 1) != 0);
    };
    fill(a, n1, p1);
    note("length %d bits %x, all patterns of length %d", n1, p1, n2);
    for (int p2 = 0; p2 < (1 << n2); p2++)
    {
        fill(b, n2, p2);
        const bool eq = n1 == n2 && p1 == p2;
        MC_CHECK((*a == *b) == eq && (*b == *a) == eq && (*a != *b) == !eq, "== of %d:%x and %d:%x", n1, p1, n2, p2);
        // b shortened from a longer one leaves stale bits behind
        fill(c, n2, p2);
        for (int i = 0; i < 9; i++)
            c->push_back(true);
        c->resize(static_cast<std::size_t>(n2));
        MC_CHECK(*c == *b && !(*c != *b), "a shortened array differs from a fresh one (%d:%x)", n2, p2);
        MC_CHECK((*a == *c) == eq, "== with a shortened array");
        Hasher h;
        h.u64(static_cast<std::uint64_t>(n1 * 100 + n2));
        h.u64(static_cast<std::uint64_t>(p1));
        h.u64(static_cast<std::uint64_t>(p2));
        outcome(h.key());
        transition();
    }
}
/// Iterator arithmetic and proxies of one array.
static void iterators()
{
    const int len = range(0, 18);
    const int pat = static_cast<int>(choose(4));  // 0..: patterns
    Slot<V>   a;
    a.make(std::numeric_limits<std::size_t>::max(), A(0));
    std::vector<bool> m;
    static const unsigned pats[] = {0x00000, 0x3FFFF, 0x15555, 0x2C693};
    for (int i = 0; i < len; i++)
    {
        m.push_back((pats[pat] >> i) & 1U);
        a->push_back(m.back());
    }
    const int  i = range(0, len);
    const int  j = range(0, len);
    note("len %d pattern %d positions %d %d", len, pat, i, j);
    auto       bi = a->begin() + i;
    auto       bj = a->begin() + j;
    const V&   k  = *a;
    auto       ci = k.begin() + i;
    auto       cj = k.cbegin() + j;
    MC_CHECK(bi - bj == i - j && ci - cj == i - j, "iterator difference");
    MC_CHECK((bi == bj) == (i == j) && (bi != bj) == (i != j) && (bi < bj) == (i < j) && (bi > bj) == (i > j) &&
                 (bi <= bj) == (i <= j) && (bi >= bj) == (i >= j),
             "iterator comparison %d %d", i, j);
    MC_CHECK((ci == cj) == (i == j) && (ci != cj) == (i != j) && (ci < cj) == (i < j) && (ci > cj) == (i > j) &&
                 (ci <= cj) == (i <= j) && (ci >= cj) == (i >= j),
             "const iterator comparison %d %d", i, j);
    auto e = a->end();
    e -= (len - i);
    MC_CHECK(e == bi, "-=");
    MC_CHECK(a->end() - (len - i) == bi, "end - n");
    e += (j - i);
    MC_CHECK(e == bj, "+=");
    auto s1 = bi, s2 = bi;
    if (i < len)
    {
        auto old = s1++;
        MC_CHECK(old == bi && ++s2 == s1 && s1 - bi == 1, "increment");
        auto old2 = s1--;
        MC_CHECK(old2 == s2 && --s2 == s1 && s1 == bi, "decrement");
        MC_CHECK(static_cast<bool>(*bi) == m[static_cast<std::size_t>(i)], "deref");
        MC_CHECK(static_cast<bool>(*ci) == m[static_cast<std::size_t>(i)], "const deref");
        MC_CHECK(static_cast<bool>((*a)[static_cast<std::size_t>(i)]) == m[static_cast<std::size_t>(i)], "[]");
    }
    if (i < len && j < len)
    {
        MC_CHECK(static_cast<bool>(bi[j - i]) == m[static_cast<std::size_t>(j)], "it[n]");
        const int how = range(0, 5);
        auto      mi  = static_cast<std::size_t>(i);
        auto      mj  = static_cast<std::size_t>(j);
        switch (how)
        {
        case 0:
            *bi   = *bj;  // element assignment through proxies
            m[mi] = m[mj];
            break;
        case 1:
            (*a)[mi] = (*a)[mj];
            m[mi]    = m[mj];
            break;
        case 2:
            *bi   = !static_cast<bool>(*bi);
            m[mi] = !m[mi];
            break;
        case 3:
            (*a)[mi].flip();
            m[mi] = !m[mi];
            break;
        case 4:
        {
            V::reference       ri = (*a)[mi];  // named references
            const V::reference rj = (*a)[mj];
            ri    = rj;
            m[mi] = m[mj];
            break;
        }
        default:
        {
            V::reference ri = (*a)[mi], rj = (*a)[mj], rk(ri);
            rk    = std::move(rj);
            m[mi] = m[mj];
            break;
        }
        }
        for (std::size_t x = 0; x < m.size(); x++)
            MC_CHECK(static_cast<bool>((*a)[x]) == m[x], "bit %zu wrong after write form %d at %d from %d", x, how, i, j);
        // the element references complement and compare as the elements do
        MC_CHECK(~(*a)[mi] == !m[mi], "~ of an element");
        const V::reference ri = (*a)[mi], rj = *bj;
        MC_CHECK((ri == rj) == (m[mi] == m[mj]) && (ri != rj) == (m[mi] != m[mj]), "references compare unlike their elements");
        V other(*a);
        other.push_back(false);
        MC_CHECK((other[mj] == ri) == (m[mi] == m[mj]), "references into two arrays compare unlike their elements");
    }
    // algorithms
    MC_CHECK(std::count(k.begin(), k.end(), true) == std::count(m.begin(), m.end(), true), "count");
    MC_CHECK(std::equal(m.begin(), m.end(), k.begin()), "std::equal");
    MC_CHECK(std::distance(k.begin(), k.end()) == len, "distance");
    std::vector<bool> rev(m.rbegin(), m.rend());
    std::reverse_copy(k.begin(), k.end(), rev.begin());
    MC_CHECK(std::equal(rev.begin(), rev.end(), m.rbegin()), "reverse_copy");
    Hasher h;
    h.u64(static_cast<std::uint64_t>(len * 1000000 + i * 10000 + j * 100 + pat));
    outcome(h.key());
    transition();
}
MC_SCENARIO("history/one", 2, 0, 3, 0, [] { run_world<bool, A>(one); });
MC_SCENARIO("history/one-realloc", 1, 0, 3, 0, [] { run_world<bool, Alloc<bool, false, false, false, false, kMoving>>(one); });
MC_SCENARIO("history/small", 2, 0, 3, 0, [] { run_world<bool, Alloc<bool, false, true, true, false, kNoRealloc>>(small); });
MC_SCENARIO("history/both", 1, 0, 2, 0, [] { run_world<bool, A>(both); });
MC_SCENARIO("wide", 1, 0, 2, 0, [] { run_world<bool, A>(wide); });
MC_SCENARIO("wide-realloc", 1, 0, 2, 0, [] { run_world<bool, Alloc<bool, false, false, false, false, kMoving>>(wide); });
MC_SCENARIO("large", 1, 0, 2, 0, [] { run_world<bool, A>(large); });
MC_SCENARIO("wide-both", 1, 0, 1, 0, [] { run_world<bool, A>(wideboth); });
MC_SCENARIO("large-both", 1, 0, 1, 0, [] { run_world<bool, A>(largeboth); });
MC_SCENARIO("pairs", 9, 0, 11, 0, &pairs);
MC_SCENARIO("iterators", 0, 0, 0, 0, &iterators);
