// C02: the limit of a variable-length array is never exceeded and travels with its contents.
#define MC_MAIN
#include "vla.hpp"
using namespace vla;
//                  nmax vals two  transf recr  alias limits lmax allocs alim init initb
static Cfg one    = {5, 1, false, false, false, true, true, 4, 1, 0, 4, 0};
static Cfg both   = {4, 1, true, true, false, false, true, 3, 2, 0, 3, 2};
static Cfg make   = {4, 1, true, true, true, false, true, 3, 1, 0, 2, 1};
static Cfg aone   = {5, 1, false, false, false, true, true, 4, 1, 3, 4, 0};
static Cfg aboth  = {4, 1, true, true, true, false, true, 4, 2, 3, 2, 1};
// for bits: limits around byte boundaries
static Cfg bone   = {19, 1, false, false, false, false, true, 18, 1, 0, 18, 0};
static Cfg bboth  = {11, 1, true, true, false, false, true, 10, 2, 0, 9, 3};
static Cfg babove = {11, 1, true, true, true, false, true, 10, 1, 1, 9, 3};
static Cfg wide   = {18, 1, false, false, false, false, true, 17, 1, 0, 17, 0};
static Cfg large  = {1, 1, false, false, false, false, true, 1025, 1, 0, 1025, 0, kFew, kNFew};
static Cfg largeboth = {1, 1, true, true, true, false, true, 1025, 1, 0, 1025, 1025, kPair, kNPair};
static Cfg awide  = {24, 1, false, false, false, false, false, 0, 1, 17, 20, 0};
static Cfg bwide  = {27, 1, false, false, false, false, true, 26, 1, 0, 26, 0};

using Plain = Elem<kCopy>;
using Mo    = MoveOnly<kSelf>;

#define ALL(label, T, R)                                                                                 \
    MC_SCENARIO("one/" label, 3, 0, 5, 0, [] { run_world<T, Alloc<T, false, false, false, false, R>>(one); });   \
    MC_SCENARIO("both/" label, 2, 0, 3, 0, [] { run_world<T, Alloc<T, false, false, false, false, R>>(both); }); \
    MC_SCENARIO("make/" label, 2, 0, 3, 0, [] { run_world<T, Alloc<T, false, false, false, false, R>>(make); }); \
    MC_SCENARIO("alloc-limit-one/" label, 3, 0, 4, 0, [] { run_world<T, Alloc<T, false, true, true, false, R>>(aone); }); \
    MC_SCENARIO("alloc-limit-both/" label, 2, 0, 3, 0, [] { run_world<T, Alloc<T, false, false, false, false, R>>(aboth); })
#if PART == 0
ALL("int", int, kMoving);
#elif PART == 1
ALL("nontrivial", Plain, kNoRealloc);
#elif PART == 2
ALL("move-only", Mo, kInPlace);
#elif PART == 4
MC_SCENARIO("wide/int", 1, 0, 1, 0, [] { run_world<int, Alloc<int, false, false, false, false, kMoving>>(wide); });
MC_SCENARIO("wide/nontrivial", 1, 0, 1, 0, [] { run_world<Plain, Alloc<Plain>>(wide); });
MC_SCENARIO("wide/bits", 1, 0, 1, 0, [] { run_world<bool, Alloc<bool>>(bwide); });
MC_SCENARIO("wide/alloc-limit-int", 1, 0, 2, 0, [] { run_world<int, Alloc<int, false, false, false, false, kMoving>>(awide); });
MC_SCENARIO("wide/alloc-limit-nontrivial", 1, 0, 2, 0, [] { run_world<Plain, Alloc<Plain>>(awide); });
#elif PART == 5
MC_SCENARIO("large/int", 1, 0, 2, 0, [] { run_world<int, Alloc<int, false, false, false, false, kMoving>>(large); });
MC_SCENARIO("large/nontrivial", 1, 0, 2, 0, [] { run_world<Plain, Alloc<Plain>>(large); });
MC_SCENARIO("large/bits", 1, 0, 2, 0, [] { run_world<bool, Alloc<bool>>(large); });
MC_SCENARIO("large-both/int", 1, 0, 1, 0, [] { run_world<int, Alloc<int, false, false, false, false, kMoving>>(largeboth); });
MC_SCENARIO("large-both/bits", 1, 0, 1, 0, [] { run_world<bool, Alloc<bool>>(largeboth); });
#elif PART == 6
/// Limits of all magnitudes: what cannot be counted or addressed is refused, what is small is granted.
template <typename T>
static void extremes()
{
    using A = Alloc<T>;
    using V = cetl::VariableLengthArray<T, A>;
    constexpr std::size_t top = std::numeric_limits<std::size_t>::max();
    static const std::size_t values[] = {0, 1, 2, 3, 7, 8, 9, 255, 256, 65535, 65536, std::size_t(1) << 31, std::size_t(1) << 32, std::size_t(1) << 60, std::size_t(1) << 61,
                                         (std::size_t(1) << 61) + 1, (std::size_t(1) << 62) - 1, std::size_t(1) << 62, (std::size_t(1) << 63) - 1, std::size_t(1) << 63, top / 8, top / 8 + 1, top - 7, top - 1, top};
    constexpr unsigned count   = sizeof values / sizeof *values;
    const std::size_t  limit   = values[choose(count)];
    const std::size_t  alimit  = values[choose(count)];
    const std::size_t  request = values[choose(count)];
    const int          form    = range(0, 2);
    const int          filled  = range(0, 2);
    // bits: the allocator counts bytes
    const std::size_t  amount  = std::is_same<T, bool>::value ? (alimit > top / 8 ? top : alimit * 8) : alimit;
    const std::size_t  most    = std::min(limit, amount);
    note("limit %zu, limit of the allocator %zu, %s %zu with %d elements", limit, alimit, form == 0 ? "reserve" : form == 1 ? "resize" : "assign", request, filled);
    if (static_cast<std::size_t>(filled) > most)
        return;
    Slot<V> s;
    s.make(limit, A(0, alimit));
    V& v = *s;
    MC_CHECK(v.max_size() <= most, "maximum size %zu exceeds %zu", v.max_size(), most);
    MC_CHECK(v.max_size() >= std::min(most, std::size_t(1) << 56), "maximum size %zu is less than %zu", v.max_size(), most);
    for (int i = 0; i < filled; i++)
        v.push_back(T(1));
    const std::size_t cap = v.capacity();
    if (request <= v.max_size() && request > 70000)
        return;  // that much memory is not available
    transition();
    const vla::Out out = vla::guarded([&] {
        if (form == 0)
            v.reserve(request);
        else if (form == 1)
            v.resize(request);
        else
            v.assign(request, T(1));
    });
    if (request > v.max_size())
    {
        MC_CHECK(out == vla::Out::length, "%zu above the maximum of %zu ends with %s", request, v.max_size(), vla::name(out));
        MC_CHECK(v.size() == static_cast<std::size_t>(filled) && v.capacity() == cap, "a refused request changes the array to %zu of %zu", v.size(), v.capacity());
        for (int i = 0; i < filled; i++)
            MC_CHECK(v[static_cast<std::size_t>(i)] == T(1), "a refused request changes an element");
    }
    else
    {
        MC_CHECK(out == vla::Out::ok, "%zu within the maximum of %zu ends with %s", request, v.max_size(), vla::name(out));
        MC_CHECK(v.capacity() >= request && v.capacity() <= most, "capacity %zu after a request of %zu", v.capacity(), request);
        MC_CHECK(v.size() == (form == 0 ? static_cast<std::size_t>(filled) : request), "size %zu after a request of %zu", v.size(), request);
    }
    Hasher h;
    h.u64(v.max_size());
    h.u64(request);
    h.u64(static_cast<std::uint64_t>(form * 4 + filled));
    outcome(h.key());
}
MC_SCENARIO("extremes/int", 0, 0, 0, 0, &extremes<int>);
MC_SCENARIO("extremes/char", 0, 0, 0, 0, &extremes<unsigned char>);
MC_SCENARIO("extremes/bits", 0, 0, 0, 0, &extremes<bool>);
#else
MC_SCENARIO("bits-one", 1, 0, 3, 0, [] { run_world<bool, Alloc<bool>>(bone); });
MC_SCENARIO("bits-both", 1, 0, 2, 0, [] { run_world<bool, Alloc<bool>>(bboth); });
MC_SCENARIO("bits-alloc-limit", 1, 0, 2, 0, [] { run_world<bool, Alloc<bool>>(babove); });
#endif
